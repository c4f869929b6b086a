// C14: after reset() a coder behaves like a new one, whatever it was used for, a failure included.
#include "drv.hpp"

static float any_resolution() { uint32_t r = vc_u32(); float x; memcpy(&x, &r, 4); vc_assume(r > 0 && r < 0x7f800000u); return x; }
static PointField any_field(FieldType t, bool has_res) {
  PointField f;
  f.type = t;
  f.offset = vc_u32();
  if (has_res) f.resolution = any_resolution();
  return f;
}

static void encoders(FieldEncoder& used, FieldEncoder& fresh, size_t step, size_t cap) {
  uint8_t* in = (uint8_t*)vc_buffer(step);
  uint8_t* w1 = (uint8_t*)vc_buffer(cap);
  uint8_t* w2 = (uint8_t*)vc_buffer(cap);
  while (vc_loop()) {   // what it was used for
    vc_fresh_bytes(in);
    BufferView o(w1, cap);
    used.encode(ConstBufferView(in, step), o);
    if (vc_bool()) used.reset();
  }
  used.reset();
  if (vc_bool()) fresh.reset();
  while (vc_loop()) {
    vc_fresh_bytes(in);
    vc_fresh_bytes(w1);
    vc_fresh_bytes(w2);
    BufferView o1(w1, cap), o2(w2, cap);
    const size_t n1 = used.encode(ConstBufferView(in, step), o1), n2 = fresh.encode(ConstBufferView(in, step), o2);
    vc_assert(n1 == n2, "a reset encoder writes as many bytes as a new one");
    vc_assert(same_bytes_n(w1, w2, n1, cap), "a reset encoder writes the same bytes as a new one");
    vc_cover("a point was coded");
  }
}
static void field_encoders(FieldType t, EncodingOptions opt, bool has_res, size_t sz) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  PointField f = any_field(t, has_res);
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  auto a = detail::CreateCompatibleEncoder(info, f), b = detail::CreateCompatibleEncoder(info, f);
  encoders(*a, *b, step, detail::MaxSerializedFieldSize(f, opt));
}

static void decoders(FieldDecoder& used, FieldDecoder& fresh, size_t step) {
  const size_t M = vc_u64();
  vc_assume(M <= (1ull << 40));
  uint8_t* wire = (uint8_t*)vc_buffer(M);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* out2 = (uint8_t*)vc_buffer(step);
  while (vc_loop()) {   // what it was used for, failures included
    vc_fresh_bytes(wire);
    const size_t m = vc_u64();
    vc_assume(m <= M);
    ConstBufferView iv(wire + (M - m), m);
    if (!attempt([&] { used.decode(iv, BufferView(out, step)); })) vc_cover("a failure before");
    if (vc_bool()) used.reset();
  }
  used.reset();
  if (vc_bool()) fresh.reset();
  while (vc_loop()) {
    vc_fresh_bytes(wire);
    vc_fresh_bytes(out);
    vc_fresh_bytes(out2);
    const size_t k = vc_u64();   // any byte
    vc_assume(k < step);
    vc_assume(out[k] == out2[k]);
    const size_t m = vc_u64();
    vc_assume(m <= M);
    ConstBufferView a(wire + (M - m), m), b = a;
    const bool okb = attempt([&] { fresh.decode(b, BufferView(out2, step)); });
    const bool oka = attempt([&] { used.decode(a, BufferView(out, step)); });
    vc_assert(oka == okb, "a reset decoder accepts what a new one accepts");
    if (!oka) break;
    vc_assert(a.size() == b.size() && a.data() == b.data(), "a reset decoder takes the same bytes as a new one");
    vc_assert(out[k] == out2[k], "a reset decoder stores the same bytes as a new one");
    vc_cover("a point was decoded");
  }
}
static void field_decoders(FieldType t, EncodingOptions opt, bool has_res, size_t sz) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  PointField f = any_field(t, has_res);
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  auto a = detail::CreateCompatibleDecoder(info, f), b = detail::CreateCompatibleDecoder(info, f);
  decoders(*a, *b, step);
}
static EncodingInfo group_info(size_t n) {
  EncodingInfo info;
  info.encoding_opt = EncodingOptions::LOSSY;
  info.version = vc_u8();
  for (size_t i = 0; i < n; i++) info.fields.push_back(any_field(FieldType::FLOAT32, true));
  return info;
}
static void group_encoders(size_t n) {
  EncodingInfo info = group_info(n);
  size_t step = vc_u32();
  vc_assume(step >= 4);
  for (auto& f : info.fields) vc_assume(f.offset <= step - 4);
  std::vector<std::unique_ptr<FieldEncoder>> a, b;
  detail::AppendLeadingLossyFloatEncoder(info, a);
  detail::AppendLeadingLossyFloatEncoder(info, b);
  vc_assert(a.size() == 1 && b.size() == 1, "one group");
  encoders(*a[0], *b[0], step, 10 * n);
}
static void group_decoders(size_t n) {
  EncodingInfo info = group_info(n);
  size_t step = vc_u32();
  vc_assume(step >= 4);
  for (auto& f : info.fields) vc_assume(f.offset <= step - 4);
  std::vector<std::unique_ptr<FieldDecoder>> a, b;
  detail::AppendLeadingLossyFloatDecoder(info, a);
  detail::AppendLeadingLossyFloatDecoder(info, b);
  vc_assert(a.size() == 1 && b.size() == 1, "one group");
  decoders(*a[0], *b[0], step);
}

// The bit-window coding of doubles: after reset() encoder and decoder, each with a past of its
// own, bring every value back.
static void gorilla(EncodingOptions opt) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  PointField f = any_field(FieldType::FLOAT64, false);
  size_t step = vc_u32();
  vc_assume(step >= 8 && f.offset <= step - 8);
  const size_t cap = detail::MaxSerializedFieldSize(f, opt);
  auto enc = detail::CreateCompatibleEncoder(info, f);
  auto dec = detail::CreateCompatibleDecoder(info, f);
  uint8_t* in = (uint8_t*)vc_buffer(step);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* wire = (uint8_t*)vc_buffer(cap);
  while (vc_loop()) {
    vc_fresh_bytes(in);
    BufferView o(wire, cap);
    enc->encode(ConstBufferView(in, step), o);
    if (vc_bool()) enc->reset();
  }
  const size_t M = vc_u64();
  vc_assume(M <= (1ull << 40));
  uint8_t* other = (uint8_t*)vc_buffer(M);
  while (vc_loop()) {
    vc_fresh_bytes(other);
    const size_t m = vc_u64();
    vc_assume(m <= M);
    ConstBufferView iv(other + (M - m), m);
    if (!attempt([&] { dec->decode(iv, BufferView(out, step)); })) vc_cover("a failure before");
    if (vc_bool()) dec->reset();
  }
  enc->reset();
  dec->reset();
  while (vc_loop()) {
    vc_fresh_bytes(in);
    vc_fresh_bytes(wire);
    vc_nothrow("a reset decoder accepts what a reset encoder wrote");
    BufferView ov(wire, cap);
    const size_t n = enc->encode(ConstBufferView(in, step), ov);
    vc_assert(n <= cap, "encoded size within the worst case");
    ConstBufferView iv(wire, n);
    dec->decode(iv, BufferView(out, step));
    vc_assert(same_bytes(in + f.offset, out + f.offset, 8), "what a reset encoder wrote a reset decoder reads back");
    vc_assert(iv.size() == 0, "a reset decoder takes exactly what a reset encoder wrote");
    vc_cover("a point went through");
  }
}

#define ONE(name, T, opt, res, sz) \
  void c14_v_enc_##name() { field_encoders(FieldType::T, EncodingOptions::opt, res, sz); } \
  void c14_v_dec_##name() { field_decoders(FieldType::T, EncodingOptions::opt, res, sz); }
extern "C" {
ONE(int8, INT8, LOSSY, false, 1)
ONE(uint8, UINT8, NONE, false, 1)
ONE(int16, INT16, LOSSY, false, 2)
ONE(uint16, UINT16, LOSSLESS, true, 2)
ONE(int32, INT32, LOSSY, false, 4)
ONE(uint32, UINT32, LOSSLESS, true, 4)
ONE(int64, INT64, LOSSY, false, 8)
ONE(uint64, UINT64, LOSSLESS, true, 8)
ONE(f32_lossy, FLOAT32, LOSSY, true, 4)
ONE(f32_xor, FLOAT32, LOSSLESS, false, 4)
ONE(f32_plain, FLOAT32, LOSSY, false, 4)
ONE(f64_lossy, FLOAT64, LOSSY, true, 8)
ONE(f64_xor, FLOAT64, LOSSLESS, true, 8)
void c14_f64_lossless() { gorilla(EncodingOptions::LOSSLESS); }
void c14_v_enc_group3() { group_encoders(3); }
void c14_v_enc_group4() { group_encoders(4); }
void c14_v_dec_group3() { group_decoders(3); }
void c14_v_dec_group4() { group_decoders(4); }
}
