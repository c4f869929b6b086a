#include "cloud.hpp"
// the encoder fits in the advertised worst case, for any content
static void run(Gen& g) {
  cl::Opt o;
  o.max_fields = g.chance(90) ? 8 : 80;
  const bool wide = g.below(1000) == 3;   // many adaptive sections, the hardest content after the mode probe
  if (wide) { o.version = 5; o.enc = 1; o.comp = 0; o.types = {FieldType::INT64, FieldType::UINT64}; o.xyz = false; o.min_fields = 65; o.max_fields = 67; o.big = false; }
  auto c = cl::gen(g, o);
  if (wide) {
    c.n = 65536; c.info.width = uint32_t(c.n); c.info.height = 1;
    c.data.assign(c.n * c.info.point_step, 0);
    for (size_t p = 0; p < c.n; p++) for (auto& f : c.info.fields) {
      uint64_t v = p < 4096 ? uint64_t(p) << 40 : p % 2 ? (1ull << 62) + 5 : 0;
      memcpy(&c.data[p * c.info.point_step + f.offset], &v, 8);
    }
  }
  PointcloudEncoder e(c.info);
  const bool hdr = g.chance(50);
  const size_t cap = MaxCompressedSize(c.info, c.n, hdr);
  cl::Heap h(cap, 0xA5);
  BufferView out(h.p, cap);
  size_t n = e.encode(ConstBufferView(c.data.data(), c.data.size()), out, hdr);
  NAT_CHECK(n <= cap, "encoded " << n << " bytes, the worst case is " << cap);
  for (size_t i = n; i < cap && c.info.compression_opt == CompressionOption::NONE; i++) NAT_CHECK(h.p[i] == 0xA5, "wrote after the end of the encoded data");
  size_t at = 0;
  if (hdr) { ConstBufferView v(h.p, n); DecodeHeader(v); at = n - v.size(); }
  std::vector<uint8_t> dec;
  PointcloudDecoder d;
  d.decode(c.info, ConstBufferView(h.p + at, n - at), dec);
  NAT_CHECK(dec.size() == c.data.size(), "decoded size");
  cl::compare(c, dec.data(), cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
  // the vector interface
  std::vector<uint8_t> v2;
  size_t m = e.encode(ConstBufferView(c.data.data(), c.data.size()), v2);
  NAT_CHECK(m == v2.size() && m <= MaxCompressedSize(c.info, c.n, true), "vector interface: returned " << m << ", size " << v2.size());
  NAT_CHECK(m - e.getHeader().size() == n - at && !memcmp(v2.data() + e.getHeader().size(), h.p + at, n - at), "the two interfaces differ");
  if (cap > 8) {
    cl::Heap s(cap - 1 - g.below(8), 0xA5);
    BufferView so(s.p, s.n);
    try {
      size_t q = e.encode(ConstBufferView(c.data.data(), c.data.size()), so, hdr);
      NAT_CHECK(q == n && !memcmp(s.p, h.p, n), "a smaller buffer changed the encoded data");
    } catch (const std::exception& x) { if (dynamic_cast<const nat::Fail*>(&x)) throw; }
  }
}
NAT_MAIN(run)
