// Random clouds through the public encoder/decoder, and the oracle for each kind of field.
#pragma once
#include "nat.hpp"
#include "cloudini_lib/cloudini.hpp"
#ifndef NAT_PUBLIC_ONLY
#include "codec_common.hpp"
#endif
using namespace Cloudini;
using nat::Gen;

namespace cl {
enum Kind { INTS = 1, EXACT = 2, LOSSY = 4, NANS = 8 };
struct Case {
  EncodingInfo info;
  std::vector<uint8_t> data;
  size_t n = 0;
};
inline bool is_float(FieldType t) { return t == FieldType::FLOAT32 || t == FieldType::FLOAT64; }
inline bool lossy(const EncodingInfo& i, const PointField& f) {
  return is_float(f.type) && i.encoding_opt == EncodingOptions::LOSSY && f.resolution.has_value();
}
inline std::string show(const EncodingInfo& i) {
  std::ostringstream o;
  o << "version=" << int(i.version) << " enc=" << ToString(i.encoding_opt) << " comp=" << ToString(i.compression_opt) << " " << i.width << "x" << i.height
    << " step=" << i.point_step << " threads=" << i.use_threads << " fields=[";
  for (auto& f : i.fields) {
    o << " " << ToString(f.type) << "@" << f.offset;
    if (f.resolution) o << "~" << *f.resolution;
  }
  o << " ]";
  return o.str();
}
inline float gen_res(Gen& g) {
  static const float r[] = {0.001f, 0.0001f, 0.01f, 0.5f, 1.0f, 0.003f, 1e-5f, 7.25f, 0.1f, 0.0625f};
  if (g.chance(80)) return r[g.below(10)];
  return std::ldexp(1.0f + float(g.below(1 << 20)) / float(1 << 20), int(g.below(24)) - 16);
}
// a sequence of n integers in one of several shapes
inline std::vector<uint64_t> int_seq(Gen& g, size_t n) {
  std::vector<uint64_t> v(n);
  const int shape = int(g.below(9));
  uint64_t base = g.word(), step = g.chance(60) ? g.below(5) : g.word();
  std::vector<uint64_t> pal;
  for (size_t i = 0, m = 1 + g.below(g.chance(50) ? 5 : 300); i < m; i++) pal.push_back(g.word());
  uint64_t cur = base;
  size_t run = 0;
  for (size_t i = 0; i < n; i++) {
    switch (shape) {
      case 0: v[i] = g.word(); break;
      case 1: v[i] = base; break;
      case 2: v[i] = base + step * i; break;
      case 3: v[i] = cur += g.below(9) - 4; break;
      case 4: v[i] = pal[g.below(pal.size())]; break;
      case 5: if (run == 0) { run = 1 + g.below(g.chance(20) ? 5000 : 40); cur = g.word(); } --run; v[i] = cur; break;
      case 6: if (run == 0) { run = 1 + g.below(200); step = g.chance(70) ? g.below(20) - 10 : g.word(); } --run; v[i] = cur += step; break;
      case 7: v[i] = g.u64(); break;
      default: v[i] = (i & 1) ? base : g.word(); break;
    }
  }
  if (n > 4200 && g.chance(50)) {  // change of character after the mode probe
    size_t at = g.chance(50) ? 4096 + g.below(n - 4096) : g.below(n);
    int s2 = int(g.below(3));
    for (size_t i = at; i < n; i++) v[i] = s2 == 0 ? g.u64() : s2 == 1 ? g.word() : base + step * i;
  }
  return v;
}
inline uint64_t gen_float_bits(Gen& g, FieldType t, bool lz, double res, uint64_t prev) {
  if (!lz) {
    if (g.chance(25)) return prev;
    if (g.chance(40)) return prev ^ (g.below(16) << g.below(64)) ^ (g.chance(30) ? (1ull << g.below(64)) : 0);
    if (g.chance(30)) { if (t == FieldType::FLOAT32) { float f = float(int64_t(g.below(2000)) - 1000) * 0.25f; uint32_t b; memcpy(&b, &f, 4); return b; } double f = double(int64_t(g.below(2000)) - 1000) * 0.1; uint64_t b; memcpy(&b, &f, 8); return b; }
    return g.word();
  }
  if (g.chance(8)) {  // NaN of any payload
    if (t == FieldType::FLOAT32) return 0x7f800000u | (1 + g.below(0x7ffffe)) | (g.below(2) << 31);
    return 0x7ff0000000000000ull | (1 + g.below(0xffffffffffffeull)) | (g.below(2) << 63);
  }
  double lim = t == FieldType::FLOAT32 ? 1073741824.0 : 1125899906842624.0;
  double q;
  switch (g.below(6)) {
    case 0: q = double(int64_t(g.u64() >> 4)) / 1152921504606846976.0 * lim; break;
    case 1: q = double(int64_t(g.below(2001)) - 1000); break;
    case 2: q = double(int64_t(g.below(2001)) - 1000) + 0.5; break;
    case 3: q = (double(g.below(1 << 24)) / (1 << 24) - 0.5) * std::ldexp(1.0, int(g.below(30))); break;
    case 4: q = double(int64_t(g.below(200001)) - 100000) / 97.0; break;
    default: q = (g.chance(50) ? 1 : -1) * lim * 0.999 * double(g.below(1000)) / 1000.0; break;
  }
  if (g.chance(50)) q = -q;
  if (t == FieldType::FLOAT32) { float f = float(q * res); uint32_t b; memcpy(&b, &f, 4); return b; }
  double f = q * res; uint64_t b; memcpy(&b, &f, 8); return b;
}
struct Opt {
  bool big = true;           // allow clouds beyond the probe / chunk limits
  int enc = -1, comp = -1, version = -1, threads = -1;
  std::vector<FieldType> types;
  int min_fields = 1, max_fields = 6;
  bool xyz = true;           // often start with 3 or 4 float32
  bool resolution = true;
};
inline Case gen(Gen& g, const Opt& o) {
  Case c;
  EncodingInfo& i = c.info;
  static const std::vector<FieldType> all = {FieldType::INT8, FieldType::UINT8, FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::FLOAT32, FieldType::FLOAT64, FieldType::INT64, FieldType::UINT64};
  const auto& ty = o.types.empty() ? all : o.types;
  i.encoding_opt = EncodingOptions(o.enc >= 0 ? o.enc : g.chance(55) ? 1 : g.chance(60) ? 2 : 0);
  i.compression_opt = CompressionOption(o.comp >= 0 ? o.comp : g.below(3));
  i.version = uint8_t(o.version >= 0 ? o.version : g.chance(50) ? 5 : g.chance(50) ? 4 : 3);
  i.use_threads = o.threads >= 0 ? o.threads : g.chance(30);
  size_t nf = g.range(o.min_fields, o.max_fields);
  uint32_t off = 0;
  size_t lead = 0;
  if (o.xyz && g.chance(50)) lead = 2 + g.below(4);
  std::vector<PointField> fs;
  for (size_t k = 0; k < nf || k < lead; k++) {
    PointField f;
    f.name = "f" + std::to_string(k);
    f.type = k < lead ? FieldType::FLOAT32 : ty[g.below(ty.size())];
    if (is_float(f.type) && o.resolution && (k < lead ? g.chance(95) : g.chance(60))) f.resolution = gen_res(g);
    if (g.chance(20)) off += uint32_t(g.below(9));
    f.offset = off;
    off += uint32_t(SizeOf(f.type));
    fs.push_back(f);
  }
  if (g.chance(20)) { size_t a = g.below(fs.size()), b = g.below(fs.size()); std::swap(fs[a].offset, fs[b].offset); if (SizeOf(fs[a].type) != SizeOf(fs[b].type)) std::swap(fs[a].offset, fs[b].offset); }
  i.fields = fs;
  i.point_step = off + (g.chance(40) ? uint32_t(g.below(12)) : 0);
  size_t n;
  if (!o.big || g.chance(82)) n = 1 + g.below(g.chance(50) ? 6 : 70);
  else if (g.chance(70)) n = 4090 + g.below(g.chance(60) ? 12 : 400);
  else if (g.chance(70)) n = 4097 + g.below(6000);
  else { static const size_t b[] = {32767, 32768, 32769, 36863, 36864, 36865, 40000, 65536, 65537}; n = b[g.below(9)]; }
  c.n = n;
  if (n % 2 == 0 && g.chance(30)) { i.height = 2; i.width = uint32_t(n / 2); } else { i.width = uint32_t(n); i.height = 1; }
  c.data.resize(n * i.point_step);
  uint64_t r = g.u64();
  for (size_t k = 0; k < c.data.size(); k++) { r = r * 6364136223846793005ull + 1442695040888963407ull; c.data[k] = uint8_t(r >> 56); }
  for (auto& f : fs) {
    size_t sz = size_t(SizeOf(f.type));
    if (!is_float(f.type)) {
      auto v = int_seq(g, n);
      for (size_t p = 0; p < n; p++) memcpy(&c.data[p * i.point_step + f.offset], &v[p], sz);
    } else {
      bool lz = lossy(i, f);
      uint64_t prev = 0;
      for (size_t p = 0; p < n; p++) {
        prev = gen_float_bits(g, f.type, lz, f.resolution ? *f.resolution : 1.0, prev);
        memcpy(&c.data[p * i.point_step + f.offset], &prev, sz);
      }
    }
  }
  g.desc << show(i) << " data=" << nat::hex(c.data.data(), c.data.size(), 256);
  g.mix(c.data.data(), c.data.size()); g.mix(&i.point_step, 4);
  g.nontrivial = n >= 2;
  return c;
}
inline bool isnan_bits(FieldType t, const uint8_t* p) {
  if (t == FieldType::FLOAT32) { uint32_t b; memcpy(&b, p, 4); return (b & 0x7fffffff) > 0x7f800000u; }
  uint64_t b; memcpy(&b, p, 8); return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull;
}
inline long double fval(FieldType t, const uint8_t* p) {
  if (t == FieldType::FLOAT32) { float f; memcpy(&f, p, 4); return f; }
  double f; memcpy(&f, p, 8); return f;
}
// the documented bound: half the resolution, plus rounding of the floating point arithmetic
inline bool within(FieldType t, long double x, long double y, float res) {
  const long double eps = t == FieldType::FLOAT32 ? 1.0L / (1 << 21) : 1.0L / (1ll << 49);
  long double lim = t == FieldType::FLOAT32 ? 1073741824.0L : 1125899906842624.0L;
  if (std::fabs(x) > lim * res) return true;  // outside the stated range
  return std::fabs(x - y) <= 0.5L * res * (1 + eps) + std::fabs(x) * eps;
}
inline void compare(const Case& c, const uint8_t* out, int kinds) {
  for (auto& f : c.info.fields) {
    size_t sz = size_t(SizeOf(f.type));
    if (f.offset == kDecodeButSkipStore) continue;
    for (size_t p = 0; p < c.n; p++) {
      const uint8_t* a = &c.data[p * c.info.point_step + f.offset];
      const uint8_t* b = out + p * c.info.point_step + f.offset;
      if (!is_float(f.type)) {
        if (kinds & INTS) NAT_CHECK(!memcmp(a, b, sz), "point " << p << " of " << c.n << ", field " << f.name << ": " << ToString(f.type) << " in=" << nat::hex(a, sz) << " out=" << nat::hex(b, sz));
      } else if (!lossy(c.info, f)) {
        if (kinds & EXACT) NAT_CHECK(!memcmp(a, b, sz), "point " << p << " of " << c.n << ", lossless field " << f.name << ": " << ToString(f.type) << " in=" << nat::hex(a, sz) << " out=" << nat::hex(b, sz));
      } else if (isnan_bits(f.type, a)) {
        if (kinds & NANS) NAT_CHECK(isnan_bits(f.type, b), "point " << p << " of " << c.n << ", field " << f.name << ": NaN came back as " << double(fval(f.type, b)));
      } else {
        if (kinds & NANS) NAT_CHECK(!isnan_bits(f.type, b), "point " << p << " of " << c.n << ", field " << f.name << ": " << double(fval(f.type, a)) << " came back as NaN");
        if (kinds & LOSSY) NAT_CHECK(within(f.type, fval(f.type, a), fval(f.type, b), *f.resolution), "point " << p << " of " << c.n << ", field " << f.name << ": " << ToString(f.type) << " resolution " << *f.resolution << " in=" << double(fval(f.type, a)) << " out=" << double(fval(f.type, b)));
      }
    }
  }
}
inline std::vector<uint8_t> encode(const Case& c) {
  PointcloudEncoder e(c.info);
  std::vector<uint8_t> out;
  e.encode(ConstBufferView(c.data.data(), c.data.size()), out);
  return out;
}
inline std::vector<uint8_t> decode(const std::vector<uint8_t>& enc, EncodingInfo* info_out = nullptr) {
  ConstBufferView v(enc.data(), enc.size());
  EncodingInfo i = DecodeHeader(v);
  if (info_out) *info_out = i;
  PointcloudDecoder d;
  std::vector<uint8_t> out;
  d.decode(i, v, out);
  return out;
}
inline void roundtrip(const Case& c, int kinds) {
  std::vector<uint8_t> enc = encode(c), dec = decode(enc);
  NAT_CHECK(dec.size() == c.data.size(), "decoded " << dec.size() << " bytes instead of " << c.data.size());
  compare(c, dec.data(), kinds);
}

inline size_t chunk_points() { return 32 * 1024; }
#ifdef NAT_PUBLIC_ONLY   // the internal interfaces have changed: only the public one is exercised
inline void field_history(Gen& g, const std::vector<FieldType>& types, int enc, int has_res, int kinds) {
  Opt o; o.types = types; o.enc = enc; o.resolution = has_res != 0; o.xyz = false; o.max_fields = 2; o.big = false;
  roundtrip(gen(g, o), kinds);
}
#else
// One field, a history of points with occasional resets, exactly sized buffers.
inline void field_history(Gen& g, const std::vector<FieldType>& types, int enc, int has_res, int kinds) {
  EncodingInfo info;
  info.version = uint8_t(g.range(2, 5));
  info.encoding_opt = EncodingOptions(enc >= 0 ? enc : g.chance(50) ? 1 : 2);
  PointField f;
  f.name = "x"; f.type = g.pick(types);
  f.offset = uint32_t(g.below(5));
  if (is_float(f.type) && (has_res == 1 || (has_res < 0 && g.chance(50)))) f.resolution = gen_res(g);
  size_t sz = size_t(SizeOf(f.type)), step = f.offset + sz + g.below(3);
  bool lz = is_float(f.type) && info.encoding_opt == EncodingOptions::LOSSY && f.resolution;
  auto e = detail::CreateCompatibleEncoder(info, f);
  auto d = detail::CreateCompatibleDecoder(info, f);
  size_t cap = detail::MaxSerializedFieldSize(f, info.encoding_opt), n = 1 + g.below(8);
  g.desc << "field history: version=" << int(info.version) << " enc=" << ToString(info.encoding_opt) << " " << ToString(f.type) << "@" << f.offset << " res=" << (f.resolution ? *f.resolution : -1) << " step=" << step << " values=";
  auto seq = int_seq(g, n);
  uint64_t prev = 0;
  Case c; c.info = info; c.info.fields = {f}; c.info.point_step = uint32_t(step); c.n = 1;
  for (size_t p = 0; p < n; p++) {
    if (g.chance(10)) { e->reset(); d->reset(); g.desc << "[reset]"; }
    prev = is_float(f.type) ? gen_float_bits(g, f.type, lz, f.resolution ? *f.resolution : 1, prev) : seq[p];
    c.data.assign(step, uint8_t(g.u64()));
    memcpy(&c.data[f.offset], &prev, sz);
    g.desc << nat::hex(&c.data[f.offset], sz) << ",";
    g.mix(&c.data[f.offset], sz);
    std::vector<uint8_t> w(cap);
    BufferView ov(w.data(), cap);
    size_t k = e->encode(ConstBufferView(c.data.data(), step), ov);
    NAT_CHECK(k <= cap && ov.size() == cap - k && k >= d->minInputBytes(), "encoded size " << k << " cap " << cap << " left " << ov.size());
    std::vector<uint8_t> w2(w.begin(), w.begin() + k), out(step, 0xA5);
    ConstBufferView iv(w2.data(), k);
    d->decode(iv, BufferView(out.data(), step));
    NAT_CHECK(iv.size() == 0, "decoder left " << iv.size() << " of " << k << " bytes");
    for (size_t q = 0; q < step; q++) if (q < f.offset || q >= f.offset + sz) NAT_CHECK(out[q] == 0xA5, "decoder wrote outside the field at " << q);
    compare(c, out.data(), kinds);
  }
  g.nontrivial = n >= 2;
}
#endif
// split an encoded cloud (without header) into chunks; throws nat::Fail when it is not framed as specified
inline std::vector<std::pair<size_t, size_t>> chunks(const uint8_t* p, size_t n) {
  std::vector<std::pair<size_t, size_t>> r;
  size_t i = 0;
  while (i < n) {
    NAT_CHECK(n - i >= 4, "chunk framing: " << n - i << " stray bytes at the end");
    uint32_t z; memcpy(&z, p + i, 4);
    NAT_CHECK(z <= n - i - 4, "chunk framing: chunk of " << z << " bytes, only " << n - i - 4 << " left");
    r.push_back({i + 4, z});
    i += 4 + z;
  }
  return r;
}
// exactly sized heap copies, so that ASan sees any access outside of them
struct Heap {
  uint8_t* p; size_t n;
  explicit Heap(size_t n_, uint8_t fill = 0) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n); }
  Heap(const uint8_t* q, size_t n_) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { if (n) memcpy(p, q, n); }
  Heap(const Heap&) = delete;
  ~Heap() { free(p); }
};
inline size_t body_at(const std::vector<uint8_t>& enc) { ConstBufferView v(enc.data(), enc.size()); DecodeHeader(v); return enc.size() - v.size(); }
}  // namespace cl
