#include "cloud.hpp"
static void run(Gen& g) {
  if (g.chance(50)) {
    int64_t v = int64_t(g.word());
    g.desc << "varint " << v; g.mix(&v, 8); g.nontrivial = true;
    uint8_t tmp[32]; memset(tmp, 0xA5, sizeof tmp);
    size_t n = encodeVarint64(v, tmp);
    NAT_CHECK(n >= 1 && n <= 10, "encoded size " << n);
    for (size_t i = n; i < 32; i++) NAT_CHECK(tmp[i] == 0xA5, "wrote past the reported size " << n);
    NAT_CHECK(tmp[0] != 0, "an encoded integer starts with the byte of the NaN marker");
    size_t extra = g.below(4);
    cl::Heap h(n + extra);
    memcpy(h.p, tmp, n);
    for (size_t i = n; i < h.n; i++) h.p[i] = uint8_t(g.u64());
    int64_t r = ~v;
    size_t k = decodeVarint(h.p, h.n, r);
    NAT_CHECK(k == n && r == v, "decoded " << r << " using " << k << " of " << n << " bytes, encoded " << nat::hex(tmp, n));
    for (size_t m = 0; m < n; m++) {
      cl::Heap t(tmp, m);
      bool threw = false;
      try { int64_t x; decodeVarint(t.p, m, x); } catch (const std::exception&) { threw = true; }
      NAT_CHECK(threw, "a varint truncated to " << m << " of " << n << " bytes was accepted");
    }
  } else {
    size_t n = g.below(14);
    cl::Heap h(n);
    for (size_t i = 0; i < n; i++) h.p[i] = uint8_t(g.chance(70) ? g.u64() | 0x80 : g.u64());
    if (n && g.chance(20)) h.p[0] = 0;
    if (n >= 10 && g.chance(50)) h.p[9] = uint8_t(g.below(4));
    if (g.chance(20)) for (size_t i = 0; i < n; i++) h.p[i] = 0x80;
    g.desc << "bytes " << nat::hex(h.p, n); g.mix(h.p, n); g.nontrivial = n > 1;
    int64_t v = 0;
    size_t k = 0;
    bool ok = true;
    try { k = decodeVarint(h.p, n, v); } catch (const std::exception&) { ok = false; }
    if (ok) {
      NAT_CHECK(k >= 1 && k <= n && k <= 10, "consumed " << k << " of " << n);
      NAT_CHECK(h.p[0] != 0, "the NaN marker was decoded as the integer " << v);
      // an independent reading of the bytes
      unsigned __int128 u = 0;
      for (size_t i = 0; i < k; i++) { u |= (unsigned __int128)(h.p[i] & 0x7f) << (7 * i); NAT_CHECK(((h.p[i] & 0x80) != 0) == (i + 1 < k), "stopped at the wrong byte"); }
      NAT_CHECK(u >= 1 && u <= ((unsigned __int128)1 << 64), "accepted a code that does not fit in 64 bits");
      uint64_t w = uint64_t(u - 1);
      int64_t e = int64_t((w >> 1) ^ (0 - (w & 1)));
      NAT_CHECK(e == v, "decoded " << v << " instead of " << e);
    }
  }
}
NAT_MAIN(run)
