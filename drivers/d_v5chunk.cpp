// C12, C08, C14: the loops of format 5 over chunks and points, for any number of each, with one field coded
// point by point and two adaptive sections.  The operations on a section are stubs here (contracts): they
// count the values they hold; that real sections hold exactly those values is what d_v5 shows.
#include "drv.hpp"
#include "v5_codec.cpp"
using namespace Cloudini::detail;

namespace {
constexpr uint64_t kStep = 24;
struct S5 {
  const uint8_t* cloud = nullptr;
  uint64_t left = 0, chunk = 0;  // points not yet begun, points of this chunk
  bool reset = false, flushed = false, open = false;
  const V5AdaptiveIntField* fields = nullptr;
  const uint8_t* stage = nullptr;
  uint64_t stage_size = 0, io = 0;
  uint64_t pos = 0, seen = 0;  // the field coded point by point: its next point, points of this chunk it has seen
} z;
struct Section {
  uint64_t pos = 0;            // its next point
  uint64_t held = 0, coded = 0;  // values kept; values written to the section already
  bool begun = false, ready = false, palette = false, done = false;
} sa, sb;
template <class F>
void on(const V5AdaptiveIntField& f, F body) {
  vc_assert(&f == z.fields, "the section of this cloud");
  body(sa);
}
void begin_chunk() {
  if (z.open) return;
  z.open = true;
  z.chunk = z.left < 32768 ? z.left : 32768;
  z.left -= z.chunk;
}
struct OneEncoder : FieldEncoder {
  size_t encode(const ConstBufferView& point, BufferView& out) override {
    vc_assert(z.reset && !z.flushed, "coders are reset before the points and flushed after them");
    vc_assert(point.data() == z.cloud + z.pos && point.size() >= kStep, "each point in order");
    vc_assert(z.seen < z.chunk, "no more points than the chunk has");
    z.pos += kStep;
    z.seen++;
    return put(out);
  }
  static size_t put(BufferView& out) {
    vc_assert(out.data() == z.stage + z.io && out.size() == z.stage_size - z.io, "each coder writes where the one before stopped");
    const size_t n = vc_u64();
    vc_assume(n <= out.size());
    out.trim_front(n);
    z.io += n;
    return n;
  }
  void reset() override { begin_chunk(); z.reset = true; }
  size_t flush(BufferView& out) override {
    vc_assert(z.seen == z.chunk, "the coder is flushed after all points");
    z.flushed = true;
    return put(out);
  }
};
V5EncoderPlan s_plan(const EncodingInfo&, size_t) {
  V5EncoderPlan p;
  p.regular.push_back(std::make_unique<OneEncoder>());
  p.adaptive.resize(1);
  p.adaptive[0].offset = 3;
  z.fields = p.adaptive.data();
  return p;
}
void s_prepare(V5AdaptiveIntField& f, size_t points) {
  begin_chunk();
  on(f, [&](Section& k) {
    f.committed = vc_concrete(f.committed);
    k.palette = vc_concrete(k.palette);
    vc_assert((points == z.chunk) & !k.ready, "a section is prepared once, for the points of its chunk");
    k.ready = true;
    k.held = k.coded = 0;
    k.begun = f.committed & !k.palette;
  });
}
void s_collect(V5AdaptiveIntField& f, const uint8_t* p) {
  on(f, [&](Section& k) {
    vc_assert(k.ready, "a section is prepared before its values come");
    vc_assert(p == z.cloud + k.pos + f.offset, "each value of the field in order");
    vc_assert(k.held + k.coded < z.chunk, "no more values than the chunk has points");
    k.pos += kStep;
    const bool now = f.committed & !k.palette;
    vc_assert(!now | k.begun, "a section has begun before values are written to it");
    k.coded += now;
    k.held += !now;
  });
}
void s_commit(V5AdaptiveIntField& f) {
  if (f.committed) return;
  on(f, [&](Section& k) {
    f.committed = true;
    k.palette = vc_concrete(vc_bool());
  });
}
void s_begin(V5AdaptiveIntField& f, size_t) {
  on(f, [&](Section& k) {
    vc_assert(f.committed, "the mode is known when a section begins");
    vc_assert(k.coded == 0, "nothing is dropped");
    k.begun = !k.palette;
  });
}
void s_probe(V5AdaptiveIntField& f) {
  on(f, [&](Section& k) {
    if (k.begun) {
      vc_assert(k.coded == 0, "the values held come first, once");
      k.coded = k.held;
      k.held = 0;
    }
  });
}
void s_append(V5AdaptiveIntField& f, BufferView& out) {
  on(f, [&](Section& k) {
    vc_assert(z.flushed, "sections follow the other fields");
    vc_assert(!k.done, "each section is written once");
    vc_assert((k.begun ? k.coded : k.held) == z.chunk, "a section holds the values of all points of the chunk");
    f.committed = true;
    k.done = true;
  });
  OneEncoder::put(out);
}
}  // namespace
extern "C" {
void c12_encode_chunks() {
  vc_unroll(2);
  vc_nobounds();
  vc_replace("buildV5Plan\\(", (void (*)())s_plan);
  vc_replace("prepareAdaptiveIntFieldForChunk\\(", (void (*)())s_prepare);
  vc_replace("collectAdaptiveIntValue\\(", (void (*)())s_collect);
  vc_replace("commitAdaptiveIntMode\\(", (void (*)())s_commit);
  vc_replace("beginCommittedAdaptiveIntSection\\(", (void (*)())s_begin);
  vc_replace("appendProbeValuesToCommittedSection\\(", (void (*)())s_probe);
  vc_replace("appendCommittedAdaptiveIntSection\\(", (void (*)())s_append);
  EncodingInfo info;
  info.point_step = kStep;
  const uint64_t points = vc_u32();
  z.left = points;
  const uint64_t size = kStep * points;
  z.cloud = (const uint8_t*)vc_buffer(size);
  z.stage_size = vc_u32();
  z.stage = (const uint8_t*)vc_buffer(z.stage_size);
  EncodeV5Stage1(
      info, ConstBufferView(z.cloud, size), points, 32768,
      [] {
        z.io = 0;
        return BufferView((uint8_t*)z.stage, z.stage_size);
      },
      [](size_t n) {
        vc_assert(n == z.io, "the size of a chunk is what its fields wrote");
        vc_assert(z.open && z.flushed && sa.done, "all fields are written");
        vc_assert(sa.pos == z.pos, "all fields are at the same point");
        z.open = z.reset = z.flushed = sa.done = sa.ready = false;
        z.seen = 0;
        vc_cover("a chunk was written");
      });
  vc_assert(z.left == 0 && !z.open, "all points are written");
}
}

// ---- decoding
namespace {
struct OneDecoder : FieldDecoder {
  void decode(ConstBufferView& in, BufferView point) override {
    vc_assert(z.reset & !sa.done, "coders are reset before the points");
    vc_assert(point.data() == z.cloud + z.pos && point.size() >= kStep, "each point in order");
    vc_assert(z.seen < z.chunk, "no more points than expected");
    z.pos += kStep;
    z.seen++;
    get(in);
  }
  static void get(ConstBufferView& in) {
    vc_assert(in.data() == z.stage + z.io && in.size() == z.stage_size - z.io, "each coder reads where the one before stopped");
    const size_t n = vc_u64();
    vc_assume(n <= in.size());
    in.trim_front(n);
    z.io += n;
  }
  void reset() override { z.reset = true; }
};
std::vector<V5AdaptiveIntField> s_fields(const EncodingInfo&) {
  std::vector<V5AdaptiveIntField> f;
  f.resize(2);
  f[0].offset = 3;
  f[1].offset = 11;
  return f;
}
void s_section(const V5AdaptiveIntField& f, ConstBufferView& in, uint8_t* out, size_t step, size_t points) {
  vc_assert(z.seen == z.chunk, "sections follow the other fields");
  vc_assert(out == z.cloud && step == kStep && points == z.chunk, "a section is read for the points of the chunk");
  if (f.offset == 3) {
    vc_assert(!sa.done, "each section once");
    sa.done = true;
  } else {
    vc_assert(sa.done & !sb.done, "sections come in the order of the fields, each once");
    sb.done = true;
  }
  OneDecoder::get(in);
}
}  // namespace
extern "C" {
void c12_decode_chunk() {
  vc_unroll(3);
  vc_replace("getV5AdaptiveFields\\(", (void (*)())s_fields);
  vc_replace("decodeV5AdaptiveIntSection\\(", (void (*)())s_section);
  EncodingInfo info;
  info.point_step = kStep;
  const uint64_t points = vc_u32();
  z.chunk = points;
  const uint64_t size = vc_u64();
  vc_assume(size <= (1ull << 40));
  z.cloud = (const uint8_t*)vc_buffer(size);
  z.stage_size = vc_u64();
  vc_assume(z.stage_size <= (1ull << 40));
  z.stage = (const uint8_t*)vc_buffer(z.stage_size);
  std::vector<std::unique_ptr<FieldDecoder>> d;
  d.push_back(std::make_unique<OneDecoder>());
  ConstBufferView in(z.stage, z.stage_size);
  BufferView out((uint8_t*)z.cloud, size);
  const bool ok = attempt([&] { DecodeV5Stage1Chunk(info, d, in, out, points); });
  if (ok) {
    vc_assert(z.seen == points && sa.done && sb.done, "all fields of all points are decoded");
    vc_assert(in.empty() && z.io == z.stage_size, "nothing is left over");
    vc_assert(out.data() == z.cloud + kStep * points && out.size() == size - kStep * points, "the output continues after the points of the chunk");
    vc_cover("a chunk was decoded");
  }
}
}
