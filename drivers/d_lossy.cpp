// C04 / C05: quantised floats, single and in leading groups of three or four.
#include "drv.hpp"

template <class U> static U load_bits(const uint8_t* p) { U u; memcpy(&u, p, sizeof(U)); return u; }
static bool is_nan(uint32_t u) { return (u & 0x7fffffffu) > 0x7f800000u; }
static bool is_nan(uint64_t u) { return (u & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static float normal_resolution() {
  uint32_t r = vc_u32();
  vc_assume(r >= 0x00800000u && r <= 0x7e800000u);  // 2^-126 .. 2^126
  float x;
  memcpy(&x, &r, 4);
  return x;
}
static void within(uint32_t x, float res, uint32_t out) {
  vc_fperr32(x, load_bits<uint32_t>((uint8_t*)&res), out, "a quantised float is within half the resolution of the original");
}
static void within(uint64_t x, float res, uint64_t out) {
  vc_fperr64(x, load_bits<uint32_t>((uint8_t*)&res), out, "a quantised double is within half the resolution of the original");
}

// one quantised field: bound, NaN, history independence
template <class U> static void single(FieldType t, bool bound) {
  const size_t sz = sizeof(U);
  EncodingInfo info;
  info.encoding_opt = EncodingOptions::LOSSY;
  info.version = vc_u8();
  vc_assume(info.version >= 2 && info.version <= 5);
  PointField f;
  f.type = t;
  f.offset = vc_u32();
  f.resolution = normal_resolution();
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  const size_t cap = detail::MaxSerializedFieldSize(f, info.encoding_opt);
  std::unique_ptr<FieldEncoder> enc = detail::CreateCompatibleEncoder(info, f);
  std::unique_ptr<FieldDecoder> dec = detail::CreateCompatibleDecoder(info, f);
  uint8_t* in = (uint8_t*)vc_buffer(step);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* wire = (uint8_t*)vc_buffer(cap);
  vc_frame(out + f.offset, sz, "decoding writes nothing but the field itself");
  while (vc_loop()) {
    vc_fresh_bytes(in);
    vc_fresh_bytes(wire);
    vc_nothrow("a value produced by the encoder is decoded without an error");
    BufferView ov(wire, cap);
    const size_t n = enc->encode(ConstBufferView(in, step), ov);
    vc_assert(n <= cap, "encoded size within the worst case");
    vc_assert(ov.size() == cap - n && ov.data() == wire + n, "the encoder advances its output by what it wrote");
    vc_assert(n >= dec->minInputBytes() && n >= 1, "encoded size at least the decoder's minimum");
    ConstBufferView iv(wire, n);
    dec->decode(iv, BufferView(out, step));
    vc_assert(iv.size() == 0, "decoder consumes exactly what the encoder wrote");
    const U x = load_bits<U>(in + f.offset), y = load_bits<U>(out + f.offset);
    if (is_nan(x)) {
      vc_assert(is_nan(y), "NaN decodes to NaN");
      vc_cover("a NaN went through");
    } else {
      if (bound) within(x, *f.resolution, y);
      vc_cover("a number went through");
    }
    if (!bound) {
      // the same value alone, through fresh coders
      vc_nothrow(nullptr);
      std::unique_ptr<FieldEncoder> enc1 = detail::CreateCompatibleEncoder(info, f);
      std::unique_ptr<FieldDecoder> dec1 = detail::CreateCompatibleDecoder(info, f);
      uint8_t wire1[16];
      uint8_t* out1 = (uint8_t*)vc_buffer(step);
      BufferView ov1(wire1, 16);
      const size_t n1 = enc1->encode(ConstBufferView(in, step), ov1);
      ConstBufferView iv1(wire1, n1);
      dec1->decode(iv1, BufferView(out1, step));
      vc_assert(load_bits<U>(out1 + f.offset) == y, "the decoded value depends on the original value alone, not on the points before it");
    }
    if (vc_bool()) { enc->reset(); dec->reset(); }
  }
  vc_nothrow(nullptr);
}

static void group(size_t n, bool bound) {
  EncodingInfo info;
  info.encoding_opt = EncodingOptions::LOSSY;
  info.version = vc_u8();
  size_t step = vc_u32();
  vc_assume(step >= 4);
  for (size_t i = 0; i < n; i++) {
    PointField f;
    f.type = FieldType::FLOAT32;
    f.offset = vc_u32();
    f.resolution = normal_resolution();
    vc_assume(f.offset <= step - 4);
    vc_assume(f.offset != kDecodeButSkipStore);
    // the fields do not overlap
    for (size_t j = 0; j < i; j++) vc_assume((f.offset >= size_t(info.fields[j].offset) + 4) | (info.fields[j].offset >= size_t(f.offset) + 4));
    info.fields.push_back(f);
  }
  size_t cap = 0;
  for (auto& f : info.fields) cap += detail::MaxSerializedFieldSize(f, info.encoding_opt);
  std::vector<std::unique_ptr<FieldEncoder>> e, e1;
  std::vector<std::unique_ptr<FieldDecoder>> d, d1;
  const size_t ke = detail::AppendLeadingLossyFloatEncoder(info, e), kd = detail::AppendLeadingLossyFloatDecoder(info, d);
  vc_assert(ke == n && kd == n && e.size() == 1 && d.size() == 1, "encoder and decoder take the same leading floats together");
  uint8_t* in = (uint8_t*)vc_buffer(step);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* wire = (uint8_t*)vc_buffer(cap);
  while (vc_loop()) {
    vc_fresh_bytes(in);
    vc_fresh_bytes(out);
    vc_fresh_bytes(wire);
    vc_nothrow("a point produced by the encoder is decoded without an error");
    BufferView ov(wire, cap);
    const size_t k = e[0]->encode(ConstBufferView(in, step), ov);
    vc_assert(k <= cap, "encoded size within the worst case");
    vc_assert(ov.size() == cap - k && ov.data() == wire + k, "the encoder advances its output by what it wrote");
    vc_assert(k >= d[0]->minInputBytes() && k >= 1, "encoded size at least the decoder's minimum");
    ConstBufferView iv(wire, k);
    d[0]->decode(iv, BufferView(out, step));
    vc_assert(iv.size() == 0, "decoder consumes exactly what the encoder wrote");
    for (size_t i = 0; i < n; i++) {
      const uint32_t x = load_bits<uint32_t>(in + info.fields[i].offset), y = load_bits<uint32_t>(out + info.fields[i].offset);
      if (is_nan(x)) {
        vc_assert(is_nan(y), "NaN decodes to NaN");
        vc_cover("a NaN went through");
      } else {
        if (bound) within(x, *info.fields[i].resolution, y);
        vc_cover("a number went through");
      }
    }
    if (vc_bool()) { e[0]->reset(); d[0]->reset(); }
  }
  vc_nothrow(nullptr);
}
extern "C" {
void c04_v_f32() { single<uint32_t>(FieldType::FLOAT32, true); }
void c04_v_f64() { single<uint64_t>(FieldType::FLOAT64, true); }
void c05_v_f32() { single<uint32_t>(FieldType::FLOAT32, false); }
void c05_v_f64() { single<uint64_t>(FieldType::FLOAT64, false); }
void c04_v_group3() { group(3, true); }
void c04_v_group4() { group(4, true); }
}
