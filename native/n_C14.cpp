#include "cloud.hpp"
// encoders and decoders carry nothing from one cloud (or chunk) to the next
static void run(Gen& g) {
  cl::Opt o;
  o.max_fields = 4;
  auto a = cl::gen(g, o);
  cl::Case b = a;                       // same schema, other content
  {
    size_t n = 1 + g.below(a.n);
    b.n = n; b.info.width = uint32_t(n); b.info.height = 1;
    b.data.assign(a.data.end() - n * a.info.point_step, a.data.end());
  }
  PointcloudEncoder e(a.info);
  std::vector<uint8_t> x, y, z, fresh = cl::encode(a);
  e.encode(ConstBufferView(a.data.data(), a.data.size()), x);
  e.encode(ConstBufferView(b.data.data(), b.data.size()), y);
  if (g.chance(30)) {                   // a refused call in between
    std::vector<uint8_t> t(4);
    BufferView tv(t.data(), t.size());
    try { e.encode(ConstBufferView(a.data.data(), a.data.size()), tv, false); } catch (const std::exception&) {}
  }
  e.encode(ConstBufferView(a.data.data(), a.data.size()), z);
  NAT_CHECK(x == fresh, "first use of an encoder differs from a fresh one");
  NAT_CHECK(z == fresh, "second use of an encoder differs from a fresh one");
  std::vector<uint8_t> fb = cl::encode(b);
  size_t ha = cl::body_at(fresh), hb = cl::body_at(fb);
  NAT_CHECK(y.size() - e.getHeader().size() == fb.size() - hb && std::equal(fb.begin() + hb, fb.end(), y.begin() + e.getHeader().size()), "a reused encoder encodes another cloud differently than a fresh one");
  // decoder reuse
  std::vector<uint8_t> ref = cl::decode(fresh), refb = cl::decode(fb), out;
  PointcloudDecoder d;
  d.decode(a.info, ConstBufferView(fresh.data() + ha, fresh.size() - ha), out);
  NAT_CHECK(out == ref, "decoding twice differs");
  if (g.chance(40)) { try { std::vector<uint8_t> t; d.decode(a.info, ConstBufferView(fresh.data() + ha, (fresh.size() - ha) / 2), t); } catch (const std::exception&) {} }
  out.clear();
  d.decode(b.info, ConstBufferView(fb.data() + hb, fb.size() - hb), out);
  NAT_CHECK(out == refb, "a reused decoder decodes another cloud differently");
  out.clear();
  d.decode(a.info, ConstBufferView(fresh.data() + ha, fresh.size() - ha), out);
  NAT_CHECK(out == ref, "a reused decoder decodes the first cloud differently");
  // each chunk decodes alone
  auto ch = cl::chunks(fresh.data() + ha, fresh.size() - ha);
  size_t p = 0;
  for (auto& k : ch) {
    size_t m = std::min<size_t>(32768, a.n - p);
    EncodingInfo i = a.info;
    i.width = uint32_t(m); i.height = 1;
    std::vector<uint8_t> part;
    PointcloudDecoder q;
    (g.chance(50) ? q : d).decode(i, ConstBufferView(fresh.data() + ha + k.first - 4, k.second + 4), part);
    std::vector<bool> own(i.point_step, false);
    for (auto& f : i.fields) for (int t = 0; t < SizeOf(f.type); t++) own[f.offset + t] = true;
    for (size_t t = 0; t < part.size(); t++) if (own[t % i.point_step]) NAT_CHECK(part[t] == ref[p * i.point_step + t], "the chunk that starts at point " << p << " decodes differently on its own");
    p += m;
  }
  NAT_CHECK(p == a.n, "chunks hold " << p << " of " << a.n << " points");
}
NAT_MAIN(run)
