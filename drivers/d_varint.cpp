// C01: the variable-length integers.
#include "drv.hpp"

extern "C" {
// every value: written in at most 10 bytes, read back exactly, consuming exactly these bytes
void c01_roundtrip() {
  const int64_t v = (int64_t)vc_u64();
  uint8_t* w = (uint8_t*)vc_buffer(10);
  vc_nothrow("an encoded integer is decoded without an error");
  const size_t n = encodeVarint64(v, w);
  vc_assert(n >= 1 && n <= 10, "one to ten bytes");
  const size_t left = vc_u64();
  vc_assume(left >= n && left <= (1ull << 40));
  int64_t r = 0;
  // what follows in the input does not matter: w2 holds the n encoded bytes and anything after
  uint8_t* w2 = (uint8_t*)vc_buffer(left);
  for (size_t i = 0; i < 10; i++) if (i < n) w2[i] = w[i];
  const size_t k = decodeVarint(w2, left, r);
  vc_assert(k == n, "reads exactly what was written");
  vc_assert(r == v, "the decoded value is the encoded value");
  vc_assert(w[0] != 0, "no value is coded as the NaN marker");
  vc_cover("a value went through");
}
// the exact size of every code (callers count on it)
void c01_size() {
  const int64_t v = (int64_t)vc_u64();
  uint8_t* w = (uint8_t*)vc_buffer(10);
  const size_t n = encodeVarint64(v, w);
  const uint64_t u = (((uint64_t)v << 1) ^ (uint64_t)(v >> 63)) + 1;
  size_t k = 1;
  for (size_t i = 1; i < 10; i++) if (u >> (7 * i)) k = i + 1;
  if (u == 0) k = 10;
  vc_assert(n == k, "one byte per seven bits of the zigzag code plus one");
  vc_cover("encoded");
}
// encoder: writes nothing beyond the bytes it reports
void c01_encode_frame() {
  const int64_t v = (int64_t)vc_u64();
  uint8_t* a = (uint8_t*)vc_buffer(10);
  const size_t n = encodeVarint64(v, a);
  uint8_t* b = (uint8_t*)vc_buffer(n);
  const size_t m = encodeVarint64(v, b);
  vc_assert(m == n, "the same size again, in a buffer of exactly that size");
  for (size_t i = 0; i < 10; i++) if (i < n) vc_assert(a[i] == b[i], "the same bytes again");
  vc_cover("encoded");
}
// any bytes, any length: an exception, or a size within the input
void c01_arbitrary() {
  const size_t n = vc_u64();
  vc_assume(n <= (1ull << 40));
  const uint8_t* p = (const uint8_t*)vc_buffer(n);
  int64_t r = 0;
  const size_t k = decodeVarint(p, n, r);
  vc_assert(k >= 1 && k <= n && k <= 10, "a value takes one to ten bytes of the input");
  vc_cover("decoded something");
}
// a truncated value is never taken for another one
void c01_truncated() {
  const int64_t v = (int64_t)vc_u64();
  uint8_t* w = (uint8_t*)vc_buffer(10);
  const size_t n = encodeVarint64(v, w);
  const size_t m = vc_u64();
  vc_assume(m < n);
  uint8_t* w2 = (uint8_t*)vc_buffer(m);
  for (size_t i = 0; i < 10; i++) if (i < m) w2[i] = w[i];
  int64_t r = 0;
  vc_cover("a truncated value");
  decodeVarint(w2, m, r);
  vc_assert(false, "a truncated integer is rejected");
}
}
