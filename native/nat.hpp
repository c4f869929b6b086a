// Replay / search harness over the real library (built from /repo with ASan and UBSan).
// It looks for a concrete failing input for an obligation the verifier refuted, and is the
// bounded stand-in (labelled as such) where an obligation is out of the verifier's reach.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace nat {
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
#define NAT_CHECK(c, msg) do { if (!(c)) { std::ostringstream o_; o_ << msg; throw nat::Fail(o_.str()); } } while (0)

struct Gen {
  uint64_t s;
  const std::vector<uint64_t>* dict;
  std::ostringstream desc;      // what this case is, for the replay file
  uint64_t hash = 1469598103934665603ull;
  bool nontrivial = false;
  Gen(uint64_t seed, const std::vector<uint64_t>* d) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567), dict(d) {}
  uint64_t u64() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned pct) { return below(100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  void mix(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { hash ^= b[i]; hash *= 1099511628211ull; } }
  // an interesting 64-bit pattern
  uint64_t word() {
    if (!dict->empty() && chance(45)) {
      uint64_t v = (*dict)[below(dict->size())];
      switch (below(8)) {
        case 0: return v + 1;
        case 1: return v - 1;
        case 2: return ~v;
        case 3: return v ^ (1ull << below(64));
        default: return v;
      }
    }
    switch (below(7)) {
      case 0: return u64();
      case 1: return u64() >> below(64);
      case 2: return 0 - (u64() >> below(64));
      case 3: { static const uint64_t b[] = {0, 1, 2, 63, 64, 127, 128, 255, 256, 8191, 8192, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x8000000000000001ull, 0xfffffffffffffffeull}; return b[below(sizeof(b) / 8)]; }
      case 4: return (1ull << below(64)) + below(3) - 1;
      case 5: return 0 - ((1ull << below(64)) + below(3) - 1);
      default: return below(16);
    }
  }
};

inline std::string hex(const void* p, size_t n, size_t lim = 400) {
  static const char* d = "0123456789abcdef";
  std::string r;
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n && i < lim; i++) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
  if (n > lim) r += "...(" + std::to_string(n) + " bytes)";
  return r;
}

// ---- driver
struct Shared { volatile uint64_t seed; volatile uint64_t done; };
inline Shared* g_sh = nullptr;
inline int g_case_limit = 20;
inline void on_alarm(int) {
  const char m[] = "NAT-HANG\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(4);
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::vector<uint64_t> load_dict(const char* f) {
  std::vector<uint64_t> d;
  std::ifstream i(f);
  uint64_t v;
  while (i >> v) d.push_back(v);
  return d;
}

// one case; prints the failure and returns false
inline bool one(const std::function<void(Gen&)>& f, uint64_t seed, const std::vector<uint64_t>& dict, std::string& msg, std::string& desc, uint64_t& hash, bool& nt) {
  Gen g(seed, &dict);
  alarm(g_case_limit);
  bool ok = true;
  try { f(g); } catch (const Fail& e) { ok = false; msg = e.what(); }
  catch (const std::exception& e) { ok = false; msg = std::string("unexpected exception: ") + e.what(); }
  alarm(0);
  desc = g.desc.str(); hash = g.hash; nt = g.nontrivial;
  return ok;
}

// usage: X search SECONDS SEED OUT SHM DICT   |   X replay SEED DICT
inline int main_(int argc, char** argv, const std::function<void(Gen&)>& f) {
  signal(SIGALRM, on_alarm);
  std::string msg, desc;
  uint64_t hash; bool nt;
  if (argc >= 4 && std::string(argv[1]) == "replay") {
    auto dict = load_dict(argv[3]);
    bool ok = one(f, strtoull(argv[2], 0, 10), dict, msg, desc, hash, nt);
    std::cout << "case: " << desc << "\n" << (ok ? "OK: the property holds on this case\n" : "FAIL: " + msg + "\n");
    return ok ? 0 : 3;
  }
  if (argc < 7) return 64;
  double secs = atof(argv[2]);
  uint64_t seed0 = strtoull(argv[3], 0, 10);
  int fd = open(argv[5], O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 64;
  g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  auto dict = load_dict(argv[6]);
  double t0 = now();
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  uint64_t n = 0;
  int rc = 0;
  for (uint64_t i = 0; now() - t0 < secs; i++) {
    uint64_t seed = seed0 * 1000003ull + i;
    g_sh->seed = seed;
    bool ok = one(f, seed, dict, msg, desc, hash, nt);
    n++; g_sh->done = n;
    if (nt) { if (seen.size() < 4000000) seen.insert(hash); if (samples.size() < 3) samples.push_back(desc.substr(0, 300)); }
    if (!ok) {
      std::ofstream o(argv[4]);
      o << "seed " << seed << "\nFAIL: " << msg << "\ncase: " << desc << "\n";
      rc = 3;
      break;
    }
  }
  std::cout << "NAT " << n << " " << seen.size() << "\n";
  for (auto& s : samples) { for (auto& c : s) if (c == '\n') c = ' '; std::cout << "SAMPLE " << s << "\n"; }
  std::cout.flush();
  _exit(rc);
}
}  // namespace nat
#define NAT_MAIN(f) int main(int argc, char** argv) { return nat::main_(argc, argv, f); }
