#include "cloud.hpp"
// every combination of schema, version, encoding and compression decodes to what was encoded,
// driven only by the header
static void run(Gen& g) {
  cl::Opt o;
  o.max_fields = 9;
  auto c = cl::gen(g, o);
  EncodingInfo h;
  auto enc = cl::encode(c);
  auto out = cl::decode(enc, &h);
  NAT_CHECK(h.version == c.info.version && h == c.info, "the header does not describe the cloud: " << cl::show(h));
  NAT_CHECK(out.size() == c.data.size(), "decoded " << out.size() << " bytes instead of " << c.data.size());
  cl::compare(c, out.data(), cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
}
NAT_MAIN(run)
