// C06 / C11: every field decoder on arbitrary bytes, in every state it can reach, storing or not.
#include "drv.hpp"

static float any_resolution() { uint32_t r = vc_u32(); float x; memcpy(&x, &r, 4); vc_assume(r > 0 && r < 0x7f800000u); return x; }
static PointField any_field(FieldType t, bool has_res) {
  PointField f;
  f.type = t;
  f.offset = vc_u32();
  if (has_res) f.resolution = any_resolution();
  return f;
}
static const size_t kLimit = 1ull << 40;

// any number of calls on any input, the state between two calls being whatever the decoder made of it
static void any_bytes(FieldDecoder& dec, size_t step, uint8_t* out) {
  const size_t M = vc_u64();
  vc_assume(M <= kLimit);
  uint8_t* wire = (uint8_t*)vc_buffer(M);
  while (vc_loop()) {
    vc_fresh_bytes(wire);
    const size_t m = vc_u64();
    vc_assume(m <= M);
    ConstBufferView iv(wire + (M - m), m);
    dec.decode(iv, BufferView(out, step));
    vc_assert(iv.size() <= m && iv.data() + iv.size() == wire + M, "what is left is the tail of the input");
    vc_assert(m - iv.size() >= dec.minInputBytes(), "a decoded value took at least the announced minimum");
    vc_cover("something decoded");
    if (vc_bool()) dec.reset();
  }
}
static void one_field(FieldType t, EncodingOptions opt, bool has_res, size_t sz) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  PointField f = any_field(t, has_res);
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  auto dec = detail::CreateCompatibleDecoder(info, f);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  vc_frame(out + f.offset, sz, "decoding writes nothing but the field itself");
  any_bytes(*dec, step, out);
}
static void skipped(FieldType t, EncodingOptions opt, bool has_res, size_t sz) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  PointField f = any_field(t, has_res), g = f;
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  g.offset = kDecodeButSkipStore;
  auto dec = detail::CreateCompatibleDecoder(info, f);
  auto skip = detail::CreateCompatibleDecoder(info, g);
  vc_assert(dec->minInputBytes() == skip->minInputBytes(), "the same minimum");
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* out2 = (uint8_t*)vc_buffer(step);
  vc_frame(out2, 0, "a skipped field stores nothing");
  const size_t M = vc_u64();
  vc_assume(M <= kLimit);
  uint8_t* wire = (uint8_t*)vc_buffer(M);
  while (vc_loop()) {
    vc_nothrow(nullptr);
    vc_fresh_bytes(wire);
    const size_t m = vc_u64();
    vc_assume(m <= M);
    ConstBufferView a(wire + (M - m), m), b = a;
    dec->decode(a, BufferView(out, step));
    vc_nothrow("input that decodes when stored also decodes when skipped");
    skip->decode(b, BufferView(out2, step));
    vc_assert(a.size() == b.size() && a.data() == b.data(), "a skipped field takes the same bytes as a stored one");
    vc_cover("something decoded");
    if (vc_bool()) { dec->reset(); skip->reset(); }
  }
}
static EncodingInfo group_info(size_t n) {
  EncodingInfo info;
  info.encoding_opt = EncodingOptions::LOSSY;
  info.version = vc_u8();
  for (size_t i = 0; i < n; i++) info.fields.push_back(any_field(FieldType::FLOAT32, true));
  return info;
}
static void group(size_t n) {
  EncodingInfo info = group_info(n);
  size_t step = vc_u32();
  vc_assume(step >= 4);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  for (auto& f : info.fields) vc_assume(f.offset <= step - 4);
  std::vector<std::unique_ptr<FieldDecoder>> d;
  size_t k = detail::AppendLeadingLossyFloatDecoder(info, d);
  vc_assert(k == n && d.size() == 1, "the leading floats are one group");
  any_bytes(*d[0], step, out);
}

#define ONE(name, T, opt, res, sz) \
  void c06_v_##name() { one_field(FieldType::T, EncodingOptions::opt, res, sz); } \
  void c11_v_##name() { skipped(FieldType::T, EncodingOptions::opt, res, sz); }
extern "C" {
ONE(int8, INT8, LOSSY, false, 1)
ONE(uint8, UINT8, NONE, false, 1)
ONE(int16, INT16, LOSSY, false, 2)
ONE(uint16, UINT16, LOSSLESS, true, 2)
ONE(int32, INT32, LOSSY, false, 4)
ONE(uint32, UINT32, LOSSLESS, true, 4)
ONE(int64, INT64, LOSSY, false, 8)
ONE(uint64, UINT64, LOSSLESS, true, 8)
ONE(f32_lossy, FLOAT32, LOSSY, true, 4)
ONE(f32_xor, FLOAT32, LOSSLESS, false, 4)
ONE(f32_plain, FLOAT32, LOSSY, false, 4)
ONE(f32_legacy, FLOAT32, NONE, true, 4)
ONE(f64_lossy, FLOAT64, LOSSY, true, 8)
void c06_v_f64_plain() { one_field(FieldType::FLOAT64, EncodingOptions::LOSSY, false, 8); }
void c06_v_f64_lossless() { one_field(FieldType::FLOAT64, EncodingOptions::LOSSLESS, false, 8); }
ONE(f64_xor, FLOAT64, LOSSLESS, true, 8)
void c06_v_group3() { group(3); }
void c06_v_group4() { group(4); }
}
