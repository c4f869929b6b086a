#include "cloud.hpp"
static void run(Gen& g) {
  static const std::vector<FieldType> ints = {FieldType::INT8, FieldType::UINT8, FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::INT64, FieldType::UINT64};
  if (g.chance(60)) { cl::field_history(g, ints, -1, 0, cl::INTS); return; }
  cl::Opt o;
  if (g.chance(70)) o.types = ints;
  cl::roundtrip(cl::gen(g, o), cl::INTS);
}
NAT_MAIN(run)
