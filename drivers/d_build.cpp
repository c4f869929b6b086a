// C09, C12: encoder and decoder hold the same codings in the same order, for every schema of up to
// kFields fields.  The coders of single fields and of leading groups are stubs here that only remember
// which field they are for; that the real ones fit each other is what the drivers of C02-C05 show.
#include "drv.hpp"
#include "v5_codec.cpp"
using namespace Cloudini::detail;

namespace {
constexpr uint64_t kFields = 5;
struct B {
  uint64_t group = 0;     // fields of the leading group: 0, 3 or 4
  uint64_t min_sum = 0;
} b;
struct RecEncoder : FieldEncoder {
  uint64_t index;
  explicit RecEncoder(uint64_t i) : index(i) {}
  size_t encode(const ConstBufferView&, BufferView&) override { return 0; }
  void reset() override {}
  size_t flush(BufferView&) override { return 0; }
};
struct RecDecoder : FieldDecoder {
  uint64_t index;
  explicit RecDecoder(uint64_t i) : index(i) { min_input_bytes_ = 1 + i; }
  void decode(ConstBufferView&, BufferView) override {}
  void reset() override {}
};
std::unique_ptr<FieldEncoder> s_encoder(const EncodingInfo& info, const PointField& f) { return std::make_unique<RecEncoder>(&f - info.fields.data()); }
std::unique_ptr<FieldDecoder> s_decoder(const EncodingInfo& info, const PointField& f) {
  const uint64_t i = &f - info.fields.data();
  b.min_sum += 1 + i;
  return std::make_unique<RecDecoder>(i);
}
size_t s_group_count(const EncodingInfo&) { return b.group; }
size_t s_group_encoder(const EncodingInfo&, std::vector<std::unique_ptr<FieldEncoder>>& v) {
  vc_assert(v.empty(), "the leading group comes first");
  if (b.group) v.push_back(std::make_unique<RecEncoder>(100 + b.group));
  return b.group;
}
size_t s_group_decoder(const EncodingInfo&, std::vector<std::unique_ptr<FieldDecoder>>& v) {
  vc_assert(v.empty(), "the leading group comes first");
  if (b.group) { v.push_back(std::make_unique<RecDecoder>(100 + b.group)); b.min_sum += 101 + b.group; }
  return b.group;
}
bool adaptive_type(FieldType t) { return t != FieldType::FLOAT32 && t != FieldType::FLOAT64 && t != FieldType::INT8 && t != FieldType::UINT8; }
void any_schema(EncodingInfo& info, uint64_t most, bool kinds = false) {
  const uint64_t n = vc_concrete(vc_u64() & 7);
  vc_assume(n <= most);
  info.version = vc_u8();
  vc_assume(info.version >= 2 && info.version <= 5);
  info.fields.resize(n);
  for (auto& f : info.fields) {
    const uint8_t t = vc_u8();
    vc_assume(t >= uint8_t(FieldType::INT8) && t <= uint8_t(FieldType::UINT64));
    // of several fields, only kinds that are treated differently are mixed
    if (kinds && n > 1) vc_assume((t == uint8_t(FieldType::INT16)) | (t == uint8_t(FieldType::FLOAT64)) | (t == uint8_t(FieldType::UINT8)));
    f.type = static_cast<FieldType>(t);
    f.offset = vc_u32();
  }
}
void stubs() {
  vc_replace("detail::CreateCompatibleEncoder", (void (*)())s_encoder);
  vc_replace("detail::CreateCompatibleDecoder", (void (*)())s_decoder);
  vc_replace("detail::AppendLeadingLossyFloatEncoder", (void (*)())s_group_encoder);
  vc_replace("detail::AppendLeadingLossyFloatDecoder", (void (*)())s_group_decoder);
  vc_replace("detail::LeadingLossyFloatFieldCount", (void (*)())s_group_count);
}
void same_coders(const std::vector<std::unique_ptr<FieldEncoder>>& e, const std::vector<std::unique_ptr<FieldDecoder>>& d, size_t min) {
  vc_assert(e.size() == d.size(), "as many encoders as decoders");
  if (e.size() != d.size()) return;
  bool same = true;
  for (size_t i = 0; i < e.size(); i++) same = same & (static_cast<RecEncoder*>(e[i].get())->index == static_cast<RecDecoder*>(d[i].get())->index);
  vc_assert(same, "the decoder of each field stands where its encoder stands");
  vc_assert(min == b.min_sum, "the least size of a point is the sum over its fields");
}
}  // namespace
extern "C" {
void c09_build_v4() {
  stubs();
  EncodingInfo info;
  any_schema(info, kFields);
  info.encoding_opt = vc_bool() ? EncodingOptions::LOSSY : EncodingOptions::LOSSLESS;
  const uint64_t n = info.fields.size();
  b.group = vc_concrete(vc_u64() & 7);
  vc_assume((b.group == 0) | ((b.group == 3) & (n >= 3)) | ((b.group == 4) & (n >= 4)));
  std::vector<std::unique_ptr<FieldEncoder>> e;
  std::vector<std::unique_ptr<FieldDecoder>> d;
  size_t min = vc_u64();
  BuildV4Encoders(info, e);
  BuildV4Decoders(info, d, min);
  same_coders(e, d, min);
  vc_assert(e.size() == n - b.group + (b.group ? 1 : 0), "every field is coded");
  if (b.group) vc_cover("with a group");
  vc_cover("a schema");
}
void c09_build_v5() {
  stubs();
  vc_unroll(20);
  EncodingInfo info;
  any_schema(info, 4, true);
  info.encoding_opt = EncodingOptions::LOSSY;
  const uint64_t n = info.fields.size();
  b.group = vc_concrete(vc_u64() & 7);
  vc_assume((b.group == 0) | ((b.group == 3) & (n >= 3)) | ((b.group == 4) & (n >= 4)));
  V5EncoderPlan plan = buildV5Plan(info, 0);
  std::vector<std::unique_ptr<FieldDecoder>> d;
  size_t min = vc_u64();
  BuildV5Decoders(info, d, min);
  same_coders(plan.regular, d, min);
  const std::vector<V5AdaptiveIntField> a = getV5AdaptiveFields(info);
  vc_assert(a.size() == plan.adaptive.size(), "as many sections as are written are read");
  if (a.size() != plan.adaptive.size()) return;
  bool same = true;
  for (size_t i = 0; i < a.size(); i++) {
    const auto &x = a[i], &y = plan.adaptive[i];
    same = same & (x.type == y.type) & (x.offset == y.offset) & (x.bytes_per_value == y.bytes_per_value) & (x.bytes_per_value == size_t(SizeOf(x.type)));
    vc_assert(!y.committed && !y.streaming_section, "no section has begun");
  }
  vc_assert(same, "each section is read for the field it was written for");
  vc_assert(plan.regular.size() + plan.adaptive.size() == n - b.group + (b.group ? 1 : 0), "every field is coded once");
  // UsesV5Codec decides about both sides: it must hold exactly if there are sections
  info.version = 5;
  vc_assert(UsesV5Codec(info) == !a.empty(), "format 5 is used exactly if a field has a section");
  vc_cover("a schema");
}
// the same number of fields, and as many coders, on both sides
void c09_group_count() {
  EncodingInfo info;
  any_schema(info, kFields);
  for (auto& f : info.fields) {
    if (vc_bool()) { uint32_t r = vc_u32(); float x; memcpy(&x, &r, 4); vc_assume((x > 0.f) & (x < 1e30f)); f.resolution = x; }
  }
  info.encoding_opt = vc_bool() ? EncodingOptions::LOSSY : EncodingOptions::LOSSLESS;
  std::vector<std::unique_ptr<FieldEncoder>> e;
  std::vector<std::unique_ptr<FieldDecoder>> d;
  const size_t n = LeadingLossyFloatFieldCount(info);
  vc_assert((n == 0) | (n == 3) | (n == 4), "groups of three or four");
  vc_assert(n <= info.fields.size(), "of the fields there are");
  vc_assert(AppendLeadingLossyFloatEncoder(info, e) == n && AppendLeadingLossyFloatDecoder(info, d) == n, "the same group on both sides");
  vc_assert(e.size() == (n ? 1 : 0) && d.size() == e.size(), "coded together");
  if (n) vc_cover("a group");
}
// without an encoding: every field is copied
void c09_none() {
  EncodingInfo info;
  any_schema(info, 2, true);
  for (auto& f : info.fields) if (vc_bool()) f.resolution = 0.5f;
  info.encoding_opt = EncodingOptions::NONE;
  info.point_step = 24;
  for (auto& f : info.fields) vc_assume(f.offset <= 16);
  std::vector<std::unique_ptr<FieldEncoder>> e;
  std::vector<std::unique_ptr<FieldDecoder>> d;
  size_t min = vc_u64();
  BuildV4Encoders(info, e);
  BuildV4Decoders(info, d, min);
  vc_assert(e.size() == info.fields.size() && d.size() == e.size(), "one coder per field");
  uint8_t in[24], out[24], wire[16];
  vc_fresh_bytes(in);
  BufferView w(wire, 16);
  for (auto& x : e) x->encode(ConstBufferView(in, 24), w);
  const size_t n = 16 - w.size();
  vc_assert(n == min, "the least size of a point is its size");
  ConstBufferView r(wire, n);
  for (auto& x : d) x->decode(r, BufferView(out, 24));
  vc_assert(r.empty(), "exactly what was written is read");
  const uint64_t k = vc_u64();
  for (auto& f : info.fields) {
    vc_assume(k < uint64_t(SizeOf(f.type)));
    vc_assert(in[f.offset + k] == out[f.offset + k], "the field comes back");
  }
  vc_cover("copied");
}
}
