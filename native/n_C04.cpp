#include "cloud.hpp"
static void run(Gen& g) {
  static const std::vector<FieldType> fl = {FieldType::FLOAT32, FieldType::FLOAT64};
  if (g.chance(55)) { cl::field_history(g, fl, 1, 1, cl::LOSSY); return; }
  cl::Opt o;
  if (g.chance(70)) o.types = fl;
  o.enc = 1;
  cl::roundtrip(cl::gen(g, o), cl::LOSSY);
}
NAT_MAIN(run)
