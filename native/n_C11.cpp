#include "cloud.hpp"
// decoding writes exactly the bytes of the stored fields; skipped fields are consumed, not stored
static void run(Gen& g) {
  cl::Opt o;
  o.max_fields = 7;
  auto c = cl::gen(g, o);
  auto enc = cl::encode(c);
  size_t at = cl::body_at(enc);
  EncodingInfo i = c.info;
  std::vector<bool> skip(i.fields.size());
  for (size_t k = 0; k < skip.size(); k++) if (g.chance(30)) { skip[k] = true; i.fields[k].offset = kDecodeButSkipStore; g.desc << " skip#" << k; }
  cl::Heap out(c.data.size() + i.point_step, 0x5A);
  PointcloudDecoder d;
  d.decode(i, ConstBufferView(enc.data() + at, enc.size() - at), BufferView(out.p, out.n));
  std::vector<bool> owned(c.info.point_step, false);
  for (size_t k = 0; k < skip.size(); k++) if (!skip[k]) for (int b = 0; b < SizeOf(c.info.fields[k].type); b++) owned[c.info.fields[k].offset + b] = true;
  for (size_t p = 0; p < c.n; p++)
    for (size_t b = 0; b < owned.size(); b++)
      if (!owned[b]) NAT_CHECK(out.p[p * owned.size() + b] == 0x5A, "point " << p << " of " << c.n << ": byte " << b << " belongs to no stored field and was written");
  for (size_t b = c.data.size(); b < out.n; b++) NAT_CHECK(out.p[b] == 0x5A, "written after the last point");
  cl::Case c2 = c;
  c2.info.fields.clear();
  for (size_t k = 0; k < skip.size(); k++) if (!skip[k]) c2.info.fields.push_back(c.info.fields[k]);
  cl::compare(c2, out.p, cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
}
NAT_MAIN(run)
