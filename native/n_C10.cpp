#include "cloud.hpp"
// headers
static void run(Gen& g) {
  EncodingInfo i;
  i.version = uint8_t(g.range(2, 5));
  static const uint32_t dims[] = {0, 1, 9, 10, 13, 32, 255, 256, 2570, 32768, 65536, 0x0a0a0a, 0x207b0a, 0x0a, 0x10a, 0xffffff};
  i.width = g.chance(60) ? dims[g.below(16)] : uint32_t(g.below(1 << 24));
  i.height = g.chance(60) ? dims[g.below(16)] : uint32_t(g.u64() >> g.below(64));
  i.point_step = uint32_t(g.u64() >> g.below(64));
  i.encoding_opt = EncodingOptions(g.below(3));
  i.compression_opt = CompressionOption(g.below(3));
  size_t nf = g.below(g.chance(95) ? 8 : 300);
  for (size_t k = 0; k < nf; k++) {
    PointField f;
    size_t len = 1 + g.below(g.chance(90) ? 12 : 300);
    static const char ab[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789./";
    for (size_t q = 0; q < len; q++) f.name += ab[g.below(q ? 65 : 53)];
    f.offset = g.chance(10) ? kDecodeButSkipStore : uint32_t(g.u64() >> g.below(64));
    f.type = FieldType(g.range(1, 10));
    if (g.chance(60)) {
      uint32_t b;
      do { b = uint32_t(g.word()) & 0x7fffffff; } while (b >= 0x7f800000 || b < 0x00800000);
      float r; memcpy(&r, &b, 4);
      f.resolution = g.chance(50) ? cl::gen_res(g) : r;
    }
    i.fields.push_back(f);
  }
  bool yaml = g.chance(50);
  g.desc << (yaml ? "yaml " : "binary ") << cl::show(i);
  g.mix(&i.width, 4); g.mix(&i.height, 4); g.mix(&i.point_step, 4); g.mix(&nf, 8); g.nontrivial = nf > 0;
  std::vector<uint8_t> out = {1, 2, 3};
  EncodeHeader(i, out, yaml ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
  NAT_CHECK(out.size() > 12 && !memcmp(out.data(), kMagicHeader, 10), "magic");
  size_t hn = out.size(), tail = g.below(6);
  for (size_t k = 0; k < tail; k++) out.push_back(uint8_t(g.u64()));
  cl::Heap h(out.data(), out.size());
  ConstBufferView v(h.p, h.n);
  EncodingInfo r = DecodeHeader(v);
  NAT_CHECK(v.size() == tail && v.data() == h.p + hn, "the header is " << hn << " bytes, " << h.n - v.size() << " were consumed");
  NAT_CHECK(r.version == i.version, "version " << int(r.version));
  NAT_CHECK(r.width == i.width && r.height == i.height && r.point_step == i.point_step, "dimensions: " << cl::show(r));
  NAT_CHECK(r.encoding_opt == i.encoding_opt && r.compression_opt == i.compression_opt, "options: " << cl::show(r));
  NAT_CHECK(r.fields.size() == i.fields.size(), r.fields.size() << " fields instead of " << i.fields.size());
  for (size_t k = 0; k < nf; k++) {
    auto &x = r.fields[k], &y = i.fields[k];
    NAT_CHECK(x.name == y.name && x.offset == y.offset && x.type == y.type, "field " << k << ": " << x.name << "@" << x.offset << " type " << int(x.type));
    NAT_CHECK(x.resolution.has_value() == y.resolution.has_value() && (!x.resolution || *x.resolution == *y.resolution), "resolution of field " << k << ": " << (x.resolution ? *x.resolution : -1) << " instead of " << (y.resolution ? *y.resolution : -1));
  }
  // a truncated header is an error, never a crash
  size_t cut = g.below(hn);
  cl::Heap t(out.data(), cut);
  ConstBufferView tv(t.p, cut);
  bool threw = false;
  try { DecodeHeader(tv); } catch (const std::exception&) { threw = true; }
  NAT_CHECK(threw, "a header truncated to " << cut << " of " << hn << " bytes was accepted");
}
NAT_MAIN(run)
