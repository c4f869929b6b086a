// C02 / C03: every integer, byte-copied and losslessly coded floating point field comes back
// bit-exactly, for every history of points, through the encoder and decoder that the real
// factories pair up for the same header.
#include "drv.hpp"

// One point field of type t, encoded and decoded point after point (the loop runs any number of
// times), interleaved with other data before and after it in the stream.
static void exact_field(FieldType t, EncodingOptions opt, bool has_res, size_t sz) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  vc_assume(info.version >= 2 && info.version <= 5);
  PointField f;
  f.type = t;
  f.offset = vc_u32();
  if (has_res) { uint32_t r = vc_u32(); float x; memcpy(&x, &r, 4); f.resolution = x; }
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  const size_t cap = detail::MaxSerializedFieldSize(f, opt);
  std::unique_ptr<FieldEncoder> enc = detail::CreateCompatibleEncoder(info, f);
  std::unique_ptr<FieldDecoder> dec = detail::CreateCompatibleDecoder(info, f);
  vc_assert(dec->minInputBytes() <= cap, "the decoder demands no more input than an encoder may produce");
  uint8_t* in = (uint8_t*)vc_buffer(step);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* wire = (uint8_t*)vc_buffer(cap);
  vc_frame(out + f.offset, sz, "decoding writes nothing but the field itself");
  while (vc_loop()) {
    vc_fresh_bytes(in);
    vc_fresh_bytes(wire);
    vc_nothrow("a value produced by the encoder is decoded without an error");
    BufferView ov(wire, cap);
    const size_t n = enc->encode(ConstBufferView(in, step), ov);
    vc_assert(n <= cap, "encoded size within the worst case");
    vc_assert(ov.size() == cap - n && ov.data() == wire + n, "the encoder advances its output by what it wrote");
    vc_assert(n >= dec->minInputBytes() && n >= 1, "encoded size at least the decoder's minimum");
    ConstBufferView iv(wire, n);
    dec->decode(iv, BufferView(out, step));
    vc_assert(same_bytes(in + f.offset, out + f.offset, sz), "decoded field equals the original bit for bit");
    vc_assert(iv.size() == 0, "decoder consumes exactly what the encoder wrote");
    vc_assert(n + enc->flush(ov) <= cap, "nothing more to flush than the worst case has space for");
    vc_cover("a point went through");
    if (vc_bool()) { enc->reset(); dec->reset(); }
  }
  vc_nothrow(nullptr);
}

// The same field marked to be skipped: takes exactly the bytes the encoder wrote, stores nothing.
static void skipped_field(FieldType t, EncodingOptions opt, bool has_res, size_t sz) {
  EncodingInfo info;
  info.encoding_opt = opt;
  info.version = vc_u8();
  vc_assume(info.version >= 2 && info.version <= 5);
  PointField f, g;
  f.type = g.type = t;
  f.offset = vc_u32();
  g.offset = kDecodeButSkipStore;
  if (has_res) { uint32_t r = vc_u32(); float x; memcpy(&x, &r, 4); f.resolution = x; g.resolution = x; }
  size_t step = vc_u32();
  vc_assume(step >= sz && f.offset <= step - sz);
  const size_t cap = detail::MaxSerializedFieldSize(f, opt);
  std::unique_ptr<FieldEncoder> enc = detail::CreateCompatibleEncoder(info, f);
  std::unique_ptr<FieldDecoder> dec = detail::CreateCompatibleDecoder(info, g);
  uint8_t* in = (uint8_t*)vc_buffer(step);
  uint8_t* out = (uint8_t*)vc_buffer(step);
  uint8_t* wire = (uint8_t*)vc_buffer(cap);
  vc_frame(out, 0, "a skipped field stores nothing");
  while (vc_loop()) {
    vc_fresh_bytes(in);
    vc_fresh_bytes(wire);
    vc_nothrow("a value produced by the encoder is skipped without an error");
    BufferView ov(wire, cap);
    const size_t n = enc->encode(ConstBufferView(in, step), ov);
    ConstBufferView iv(wire, n);
    dec->decode(iv, BufferView(out, step));
    vc_assert(iv.size() == 0, "a skipped field takes exactly what the encoder wrote");
    vc_cover("a point went through");
    if (vc_bool()) { enc->reset(); dec->reset(); }
  }
  vc_nothrow(nullptr);
}

extern "C" {
void c11_f64_lossless() { skipped_field(FieldType::FLOAT64, EncodingOptions::LOSSLESS, false, 8); }
void c11_f64_plain() { skipped_field(FieldType::FLOAT64, EncodingOptions::LOSSY, false, 8); }
void c02_int8() { exact_field(FieldType::INT8, EncodingOptions::LOSSY, false, 1); }
void c02_uint8() { exact_field(FieldType::UINT8, EncodingOptions::LOSSLESS, false, 1); }
void c02_int16() { exact_field(FieldType::INT16, EncodingOptions::LOSSY, false, 2); }
void c02_uint16() { exact_field(FieldType::UINT16, EncodingOptions::LOSSLESS, false, 2); }
void c02_int32() { exact_field(FieldType::INT32, EncodingOptions::LOSSY, false, 4); }
void c02_uint32() { exact_field(FieldType::UINT32, EncodingOptions::LOSSLESS, false, 4); }
void c02_int64() { exact_field(FieldType::INT64, EncodingOptions::LOSSY, false, 8); }
void c02_uint64() { exact_field(FieldType::UINT64, EncodingOptions::LOSSLESS, false, 8); }
void c03_f32_xor() { exact_field(FieldType::FLOAT32, EncodingOptions::LOSSLESS, false, 4); }
void c03_f32_xor_res() { exact_field(FieldType::FLOAT32, EncodingOptions::LOSSLESS, true, 4); }
void c03_f32_plain() { exact_field(FieldType::FLOAT32, EncodingOptions::LOSSY, false, 4); }
void c03_f64_lossless() { exact_field(FieldType::FLOAT64, EncodingOptions::LOSSLESS, false, 8); }
void c03_f64_lossless_res() { exact_field(FieldType::FLOAT64, EncodingOptions::LOSSLESS, true, 8); }
void c03_f64_plain() { exact_field(FieldType::FLOAT64, EncodingOptions::LOSSY, false, 8); }
}
