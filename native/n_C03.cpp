#include "cloud.hpp"
static void run(Gen& g) {
  static const std::vector<FieldType> fl = {FieldType::FLOAT32, FieldType::FLOAT64};
  if (g.chance(60)) { if (g.chance(50)) cl::field_history(g, fl, 2, -1, cl::EXACT); else cl::field_history(g, fl, 1, 0, cl::EXACT); return; }
  cl::Opt o;
  if (g.chance(70)) o.types = fl;
  if (g.chance(50)) o.resolution = false; else o.enc = 2;
  cl::roundtrip(cl::gen(g, o), cl::EXACT);
}
NAT_MAIN(run)
