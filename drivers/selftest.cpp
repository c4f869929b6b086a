// Entries st_ok_* must be proved, entries st_bad_* must have a refuted obligation: the setup
// command runs them to see that the verifier can tell the difference.
#include "drv.hpp"
#include <vector>
#include <string>

static uint64_t sum_to(const uint8_t* p, size_t n) {
  uint64_t s = 0;
  for (size_t i = 0; i < n; i++) s += p[i];
  return s;
}
struct Acc { int64_t prev = 0; uint64_t count = 0; };
static void step(Acc& a, int64_t v, bool bad) { a.prev = v; a.count += (bad && v == 0x123456789abcLL) ? 0 : 1; }

extern "C" {
void st_ok_bounds() { size_t n = vc_u64(); vc_assume(n < 1000000); uint8_t* p = (uint8_t*)vc_buffer(n); sum_to(p, n); vc_assert(true, "done"); vc_cover("c"); }
void st_bad_bounds() { size_t n = vc_u64(); vc_assume(n < 1000000); uint8_t* p = (uint8_t*)vc_buffer(n); sum_to(p, n + (n == 4711)); vc_assert(true, "done"); }
void st_ok_state() { Acc a; uint64_t k = 0; while (vc_loop()) { step(a, (int64_t)vc_u64(), false); k++; vc_assert(a.count == k, "counts"); vc_cover("c"); } }
void st_bad_state() { Acc a; uint64_t k = 0; while (vc_loop()) { step(a, (int64_t)vc_u64(), true); k++; vc_assert(a.count == k, "counts"); } }
void st_ok_frame() { uint8_t* p = (uint8_t*)vc_buffer(64); uint32_t i = vc_u32(); vc_assume(i < 8); vc_frame(p + 8, 8, "frame"); p[8 + i] = 1; vc_assert(p[8 + i] == 1, "stored"); vc_cover("c"); }
void st_bad_frame() { uint8_t* p = (uint8_t*)vc_buffer(64); uint32_t i = vc_u32(); vc_assume(i <= 8); vc_frame(p + 8, 8, "frame"); p[8 + i] = 1; vc_assert(p[8 + i] == 1, "stored"); }
void st_ok_float() { uint32_t b = vc_u32(); float x; memcpy(&x, &b, 4); bool n = x != x; vc_assert(n == ((b & 0x7fffffff) > 0x7f800000), "NaN test"); vc_assert(!(x > 0) || (int32_t)b > 0, "sign"); vc_cover("c"); }
void st_bad_float() { uint32_t b = vc_u32(); float x; memcpy(&x, &b, 4); uint32_t c; float y = x + 0.0f; memcpy(&c, &y, 4); vc_assert(b == c, "adding zero keeps every pattern"); }
void st_ok_wrap() { int64_t a = (int64_t)vc_u64(), b = (int64_t)vc_u64(); int64_t d = (int64_t)((uint64_t)a - (uint64_t)b); vc_assert((int64_t)((uint64_t)b + (uint64_t)d) == a, "wraps back"); vc_cover("c"); }
void st_bad_wrap() { int64_t a = (int64_t)vc_u64(), b = (int64_t)vc_u64(); int64_t d = (int64_t)((uint64_t)a - (uint64_t)b); vc_assert((d > 0) == (a > b), "no overflow"); }
void st_ok_throw() { size_t n = vc_u64(); vc_assume(n >= 4 && n < 100); uint8_t* p = (uint8_t*)vc_buffer(n); ConstBufferView v(p, n); vc_nothrow("no throw"); uint32_t x; decode(v, x); vc_assert(v.size() == n - 4, "left"); vc_cover("c"); }
void st_bad_throw() { size_t n = vc_u64(); vc_assume(n >= 3 && n < 100); uint8_t* p = (uint8_t*)vc_buffer(n); ConstBufferView v(p, n); vc_nothrow("no throw"); uint32_t x; decode(v, x); vc_assert(v.size() == n - 4, "left"); }
void st_ok_vector() { std::vector<uint64_t> v; v.push_back(vc_u64()); v.push_back(7); vc_assert(v.size() == 2 && v[1] == 7, "pushed"); vc_cover("c"); }
void st_bad_vector() { std::vector<uint64_t> v; v.push_back(vc_u64()); v.push_back(7); uint64_t* p = v.data(); v.clear(); v.shrink_to_fit(); vc_assert(*p != 0x5555, "freed"); }
void st_bad_div() { uint64_t a = vc_u64(), b = vc_u64(); vc_assert(a != 5 || a / b != 4711, "quotient"); }
void st_ok_div() { uint64_t a = vc_u64(), b = vc_u32(); if (b) { vc_assert(a != 5 || a / b != 4711, "quotient"); vc_cover("c"); } }
void st_bad_vacuous() { uint64_t a = vc_u64(); vc_assume(a > 5 && a < 3); vc_cover("c"); vc_assert(a == 0, "anything"); }
void st_ok_try() { size_t n = vc_u64(); vc_assume(n < 100); uint8_t* p = (uint8_t*)vc_buffer(n); ConstBufferView v(p, n); uint32_t x, k = 0; bool ok = attempt([&] { k = 1; decode(v, x); k = 2; }); vc_assert(ok == (n >= 4), "fails exactly on short input"); vc_assert(k == (ok ? 2u : 1u) && v.size() == (ok ? n - 4 : n), "what was written before the failure stays"); if (ok) vc_cover("c"); else vc_cover("d"); }
void st_bad_try() { size_t n = vc_u64(); vc_assume(n < 100); uint8_t* p = (uint8_t*)vc_buffer(n); ConstBufferView v(p, n); uint32_t x, k = 0; attempt([&] { k = 1; decode(v, x); k = 2; }); vc_assert(k == 2, "never fails"); }
void st_bad_try_loop() { size_t n = vc_u64(); vc_assume(n < 100); uint8_t* p = (uint8_t*)vc_buffer(n); ConstBufferView v(p, n); uint32_t x; uint64_t k = 0; bool ok = attempt([&] { while (vc_loop()) { decode(v, x); k++; } }); vc_assert(ok | (k < 20), "fails soon"); }
void st_ok_try_loop() { size_t n = vc_u64(); vc_assume(n < 100); uint8_t* p = (uint8_t*)vc_buffer(n); ConstBufferView v(p, n); uint32_t x; uint64_t k = 0; bool ok = attempt([&] { while (vc_loop()) { k = v.size(); decode(v, x); } }); vc_assert(ok | (k < 4), "fails at the end"); if (ok) vc_cover("c"); else vc_cover("d"); }
}
