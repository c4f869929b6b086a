#include "cloud.hpp"
// framing: chunks of 32768 points, each with its size; missing or surplus data is an error
static bool rejects(const EncodingInfo& i, const uint8_t* p, size_t n, size_t out) {
  cl::Heap h(p, n);
  cl::Heap o(out);
  PointcloudDecoder d;
  try { d.decode(i, ConstBufferView(h.p, n), BufferView(o.p, out)); } catch (const std::exception&) { return true; }
  return false;
}
static void run(Gen& g) {
  cl::Opt o;
  o.max_fields = 3;
  auto c = cl::gen(g, o);
  auto enc = cl::encode(c);
  size_t at = cl::body_at(enc);
  const uint8_t* b = enc.data() + at;
  size_t n = enc.size() - at;
  auto ch = cl::chunks(b, n);
  NAT_CHECK(ch.size() == (c.n + 32767) / 32768, ch.size() << " chunks for " << c.n << " points");
  NAT_CHECK(!rejects(c.info, b, n, c.data.size()), "the untouched data was rejected");
  for (int k = 0; k < 4; k++) {
    size_t cut = g.chance(50) ? g.below(n) : n - 1 - g.below(std::min<size_t>(n, 6));
    if (k == 3 && ch.size() > 1) cut = ch[g.below(ch.size() - 1)].first;
    if (k == 2 && ch.size() > 1) { size_t q = g.below(ch.size() - 1); cut = ch[q].first + ch[q].second; }
    NAT_CHECK(rejects(c.info, b, cut, c.data.size()), "data truncated to " << cut << " of " << n << " bytes was accepted");
  }
  // surplus chunk, surplus bytes
  std::vector<uint8_t> more(b, b + n);
  size_t q = g.below(ch.size());
  more.insert(more.end(), b + ch[q].first - 4, b + ch[q].first + ch[q].second);
  NAT_CHECK(rejects(c.info, more.data(), more.size(), c.data.size() + 40000 * c.info.point_step), "a surplus chunk was accepted");
  more.assign(b, b + n);
  for (size_t k = 0, m = 1 + g.below(6); k < m; k++) more.push_back(g.chance(50) ? 0 : uint8_t(g.u64()));
  NAT_CHECK(rejects(c.info, more.data(), more.size(), c.data.size() + 40000 * c.info.point_step), "surplus bytes after the last chunk were accepted");
  // a chunk that claims more than there is
  more.assign(b, b + n);
  uint32_t z = uint32_t(n - ch.back().first) + 1 + uint32_t(g.below(1000));
  memcpy(&more[ch.back().first - 4], &z, 4);
  NAT_CHECK(rejects(c.info, more.data(), n, c.data.size()), "a chunk larger than the remaining data was accepted");
  // fewer / more points declared than encoded
  EncodingInfo j = c.info;
  j.height = 1; j.width = uint32_t(c.n + 32768);
  NAT_CHECK(rejects(j, b, n, size_t(j.width) * j.point_step), "missing chunks were accepted");
  // a too small output
  if (c.data.size()) NAT_CHECK(rejects(c.info, b, n, c.data.size() - 1 - g.below(std::min<size_t>(c.data.size(), c.info.point_step))), "an output buffer that is too small was accepted");
  // truncated stage 1 data: fewer bytes inside the last chunk
  if (c.info.compression_opt == CompressionOption::NONE && ch.back().second > 0) {
    more.assign(b, b + n);
    size_t d = 1 + g.below(std::min<size_t>(ch.back().second, 4));
    z = uint32_t(ch.back().second - d);
    memcpy(&more[ch.back().first - 4], &z, 4);
    more.resize(n - d);
    NAT_CHECK(rejects(c.info, more.data(), more.size(), c.data.size()), "a last chunk that lacks " << d << " bytes was accepted");
  }
}
NAT_MAIN(run)
