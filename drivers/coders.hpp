// Any number of field coders of which only the interface is known: they check who calls them with what.
#pragma once
#include "drv.hpp"

namespace {
struct Ghost {
  bool order = false;   // check which coder gets which point ...
  bool bytes = false;   // ... or which bytes (two proofs)
  uint64_t n8 = 0;      // 8 * number of coders
  uint64_t k8 = 0;      // 8 * coders already called for this point
  uint64_t r8 = 0;      // 8 * coders already reset
  uint64_t f8 = 0;      // 8 * coders already flushed
  uint64_t pos = 0;     // byte position of this point
  uint64_t points = 0;
  uint64_t io = 0;      // bytes written / read so far
  uint64_t step = 0;
  const uint8_t* cloud = nullptr;
  uint64_t cloud_size = 0;
  const uint8_t* coded = nullptr;
  uint64_t coded_size = 0;
} g;

void next_point(bool fits) {
  if (g.k8 == g.n8) {
    g.k8 = 0;
    g.pos += g.step;
    g.points++;
    vc_assert(fits, "a point lies inside the cloud");
  }
}

struct AnyEncoder : FieldEncoder {
  size_t encode(const ConstBufferView& point, BufferView& output) override {
    if (g.order) {
      vc_assert(g.r8 == g.n8, "every coder is reset before the first point of a chunk");
      next_point(true);
      vc_assert(vc_offset(this) == g.k8, "the coders are called in the order of the fields");
      vc_assert(point.data() == g.cloud + g.pos, "each coder gets the point itself");
      vc_assert(point.size() == g.cloud_size - g.pos, "each coder gets the point and what follows it");
      g.k8 += 8;
    }
    return put(output);
  }
  static size_t put(BufferView& output) {
    if (!g.bytes) return 0;
    vc_assert(output.data() == g.coded + g.io && output.size() == g.coded_size - g.io, "each coder writes where the one before stopped");
    const size_t n = vc_u64();
    vc_assume(n <= output.size());
    output.trim_front(n);
    g.io += n;
    return n;
  }
  void reset() override {
    vc_assert(vc_offset(this) == g.r8, "every coder is reset once");
    g.r8 += 8;
  }
  size_t flush(BufferView& output) override {
    vc_assert(vc_offset(this) == g.f8, "every coder is flushed once");
    g.f8 += 8;
    return put(output);
  }
};
struct AnyDecoder : FieldDecoder {
  void decode(ConstBufferView& input, BufferView point) override {
    if (g.order) {
      vc_assert(g.r8 == g.n8, "every coder is reset before the first point of a chunk");
      next_point(true);
      vc_assert(vc_offset(this) == 2 * g.k8, "the coders are called in the order of the fields");
      vc_assert(point.data() == g.cloud + g.pos && point.size() >= g.step && g.pos <= g.cloud_size && point.size() <= g.cloud_size - g.pos, "each coder gets the point itself");
      g.k8 += 8;
    }
    if (!g.bytes) return;
    vc_assert(input.data() == g.coded + g.io && input.size() == g.coded_size - g.io, "each coder reads where the one before stopped");
    const size_t n = vc_u64();
    vc_assume(n <= input.size());
    input.trim_front(n);
    g.io += n;
  }
  void reset() override {
    vc_assert(vc_offset(this) == 2 * g.r8, "every coder is reset once");
    g.r8 += 8;
  }
};
// a vector of any number of coders, all like proto
template <class B, class S> std::vector<std::unique_ptr<B>>& any_coders(S& proto, void** rep) {
  const size_t n = vc_u32();
  vc_assume(n >= 1 && n <= 65535);
  void* objs = vc_objects(&proto, sizeof(S), n);
  uint8_t* ptrs = (uint8_t*)vc_pointers(objs, sizeof(S), n);
  g.n8 = g.k8 = 8 * n;
  rep[0] = ptrs;
  rep[1] = rep[2] = ptrs + 8 * n;   // begin, end, capacity of std::vector (libstdc++)
  return *reinterpret_cast<std::vector<std::unique_ptr<B>>*>(rep);
}
}  // namespace
