#include "cloud.hpp"
// version 5 adaptive integer sections
static void run(Gen& g) {
  static const std::vector<FieldType> ints = {FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::INT64, FieldType::UINT64};
  cl::Opt o;
  o.version = 5; o.enc = 1;
  if (g.chance(80)) o.types = ints;
  o.xyz = g.chance(50);
  o.max_fields = g.chance(60) ? 2 : 6;
  cl::roundtrip(cl::gen(g, o), cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
}
NAT_MAIN(run)
