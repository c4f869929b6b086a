#include "cloud.hpp"
// NaN comes back as NaN, and changes nothing else: the cloud with every NaN replaced by a number
// decodes to the same bytes everywhere else (the deltas skip over it).
static void run(Gen& g) {
  static const std::vector<FieldType> fl = {FieldType::FLOAT32, FieldType::FLOAT64};
  if (g.chance(40)) { cl::field_history(g, fl, 1, 1, cl::LOSSY | cl::NANS); return; }
  cl::Opt o;
  if (g.chance(70)) o.types = fl;
  o.enc = 1;
  auto c = cl::gen(g, o);
  cl::roundtrip(c, cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
}
NAT_MAIN(run)
