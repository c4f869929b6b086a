// C12, C06, C11, C07: the adaptive integer sections of format 5, for any number of points.
// The section is a sequence of tokens (variable-length integers, raw values, run lengths); the ghost state
// below is its meaning.  Writers and readers are both checked against that meaning.
#include "drv.hpp"
#include "v5_codec.cpp"
using namespace Cloudini::detail;

namespace {
struct G5 {
  uint64_t mask = 0;       // of the bytes of a value
  uint64_t bytes = 0;
  // wire
  const uint8_t* wire = nullptr;
  uint64_t wire_size = 0, io = 0;
  // values
  uint64_t last = 0;       // the value before
  uint64_t diff = 0;       // the difference of the current run
  uint64_t value = 0;      // the value of the current run
  uint64_t left = 0;       // values left in the current run
  uint64_t cnt = 0;        // values seen in the current run
  uint64_t runs = 0;
  bool head = false;       // the first half of a run was seen
  bool rle = false, delta = false, skip = false;
  // output
  const uint8_t* out = nullptr;
  uint64_t pos = 0, step = 0, off = 0, stored = 0, points = 0, out_size = 0;
  bool live = false;       // values are coming
  uint64_t total = 0;
} g5;

const FieldType kTypes[6] = {FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::INT64, FieldType::UINT64};
void any_int_field(V5AdaptiveIntField& f) {
  const uint64_t k = vc_concrete(vc_u64() & 7);
  vc_assume(k < 6);
  f.type = kTypes[k];
  f.bytes_per_value = g5.bytes = size_t(1) << (1 + k / 2);
  g5.mask = ~0ull >> (64 - 8 * g5.bytes);
}

// a reader looks at the size of the values, not at their type
void any_size(V5AdaptiveIntField& f) {
  f.bytes_per_value = g5.bytes = vc_u64();
  vc_assume(g5.bytes >= 1 && g5.bytes <= 8);
  g5.mask = vc_u64();
}

// ---- readers
void took(uint64_t n) { g5.io += n; }
size_t r_varint(const uint8_t* buf, size_t max, int64_t& val) {
  vc_assert(buf == g5.wire + g5.io && max == g5.wire_size - g5.io, "the reader continues where it stopped");
  if (max == 0 || vc_bool()) throw std::runtime_error("truncated");
  const size_t n = vc_u64();
  vc_assume(n >= 1 && n <= 10 && n <= max);
  took(n);
  g5.diff = vc_u64();
  if (g5.delta) g5.left = 1;
  else { vc_assert(g5.skip || g5.left == 0, "a run is used up before the next one"); g5.head = true; }
  val = int64_t(g5.diff);
  return n;
}
uint64_t r_uvarint(ConstBufferView& in) {
  vc_assert(in.data() == g5.wire + g5.io && in.size() == g5.wire_size - g5.io, "the reader continues where it stopped");
  vc_assert(g5.head, "a run length follows the value of the run");
  g5.head = false;
  if (in.empty() || vc_bool()) throw std::runtime_error("truncated");
  const size_t n = vc_u64();
  vc_assume(n >= 1 && n <= 10 && n <= in.size());
  in.trim_front(n);
  took(n);
  g5.left = vc_u64();
  return g5.left;
}
uint64_t r_raw(const uint8_t* p, size_t bytes) {
  vc_assert(p == g5.wire + g5.io && bytes == g5.bytes && g5.wire_size - g5.io >= bytes, "a raw value is read inside the input");
  vc_assert(g5.skip || g5.left == 0, "a run is used up before the next one");
  took(bytes);
  g5.head = true;
  g5.value = vc_u64() & g5.mask;
  return g5.value;
}
void w_store(uint64_t value, size_t bytes, uint8_t* dst) {
  vc_assert(g5.stored < g5.points, "no more values than points");
  vc_assert(bytes == g5.bytes && dst == g5.out + g5.pos + g5.off, "each value is stored in the bytes of its field of its point");
  vc_assert(g5.pos + g5.step <= g5.out_size, "each point lies inside the output");
  vc_assert(g5.left > 0, "a run stores no more values than its length");
  if (!g5.rle) { g5.last += g5.diff; g5.value = g5.last; }
  vc_assert(((value ^ g5.value) & g5.mask) == 0, "the decoded value is the one the section stands for");
  g5.left--;
  g5.pos += g5.step;
  g5.stored++;
  vc_cover("a value was stored");
}
}  // namespace

// the decoder of a section: mode known, everything after it arbitrary
static void read_section(AdaptiveIntMode mode, bool skip) {
  vc_unroll(1);
  if (!skip) vc_nobounds();
  vc_replace("decodeVarint\\(", (void (*)())r_varint);
  vc_replace("readUVarint\\(", (void (*)())r_uvarint);
  vc_replace("readRawBits\\(", (void (*)())r_raw);
  vc_replace("writeRawBitsToPoint\\(", (void (*)())w_store);
  V5AdaptiveIntField f;
  any_size(f);
  f.offset = vc_u32();
  g5.delta = mode == AdaptiveIntMode::DeltaVarint;
  g5.rle = mode == AdaptiveIntMode::Rle;
  g5.skip = skip;
  if (skip) f.offset = kDecodeButSkipStore;
  else vc_assume(f.offset < kDecodeButSkipStore);
  g5.off = f.offset;
  g5.step = vc_u32();
  vc_assume(skip || (g5.off + g5.bytes <= g5.step));
  const size_t points = vc_u64();
  vc_assume(points >= 1 && points <= 32768);
  g5.points = points;
  g5.out_size = points * g5.step;
  g5.out = (const uint8_t*)vc_buffer(g5.out_size);
  g5.wire_size = vc_u64();
  vc_assume(g5.wire_size <= (1ull << 40));
  uint8_t* wire = (uint8_t*)vc_buffer(g5.wire_size);
  if (g5.wire_size > 0) wire[0] = uint8_t(mode);
  g5.wire = wire;
  g5.io = g5.delta ? 1 : 5;
  ConstBufferView in(wire, g5.wire_size);
  const bool ok = attempt([&] { decodeV5AdaptiveIntSection(f, in, (uint8_t*)g5.out, g5.step, points); });
  if (ok) {
    vc_assert(in.data() == g5.wire + g5.io && in.size() == g5.wire_size - g5.io, "the input continues after the section");
    if (skip) vc_assert(g5.stored == 0, "a skipped field stores nothing");
    else vc_assert(g5.stored == points, "every point gets its value");
    vc_cover("a section was decoded");
  } else vc_assert(skip || g5.stored <= points, "no more values than points");
}
extern "C" {
void c12_read_delta() { read_section(AdaptiveIntMode::DeltaVarint, false); }
void c12_read_delta_rle() { read_section(AdaptiveIntMode::DeltaRle, false); }
void c12_read_rle() { read_section(AdaptiveIntMode::Rle, false); }
void c12_skip_delta() { read_section(AdaptiveIntMode::DeltaVarint, true); }
void c12_skip_delta_rle() { read_section(AdaptiveIntMode::DeltaRle, true); }
void c12_skip_rle() { read_section(AdaptiveIntMode::Rle, true); }
}

// ---- writers, point by point: every token they write is checked against the values since the last one
namespace {
void w_value(int64_t value) {
  if (g5.delta) vc_assert(((uint64_t(value) ^ g5.diff) & g5.mask) == 0, "each difference leads from one value to the next");
  else vc_assert(g5.cnt > 0 && ((uint64_t(value) ^ g5.diff) & g5.mask) == 0, "a run is written with the difference of its values");
  vc_assert(!g5.head, "a run is a difference and a length");
  g5.head = !g5.delta;
  if (g5.delta) g5.cnt = 0;
}
void sw_varint(int64_t value, std::vector<uint8_t>&) { w_value(value); }
void w_length(uint64_t n) {
  vc_assert(g5.head, "a run is a value and a length");
  vc_assert(n == g5.cnt, "a run is written with the number of its values");
  g5.head = false;
  g5.cnt = 0;
  g5.runs++;
  vc_cover("a run was written");
}
void sw_uvarint(uint64_t n, std::vector<uint8_t>&) { w_length(n); }
void sw_raw(std::vector<uint8_t>& out, uint64_t value, size_t bytes) {
  if (!g5.live) {   // the start of the section
    for (size_t i = 0; i < bytes; i++) out.push_back(uint8_t(value >> (8 * i)));
    return;
  }
  vc_assert(!g5.head && bytes == g5.bytes && g5.cnt > 0 && ((value ^ g5.value) & g5.mask) == 0, "a run is written with its value");
  g5.head = true;
}
}  // namespace
static void write_section(AdaptiveIntMode mode) {
  vc_unroll(1);
  vc_narrow();
  vc_replace("appendVarint64\\(", (void (*)())sw_varint);
  vc_replace("appendUVarint\\(", (void (*)())sw_uvarint);
  vc_replace("appendRawBits\\(std", (void (*)())sw_raw);
  V5AdaptiveIntField f;
  any_int_field(f);
  f.committed = true;
  f.committed_mode = mode;
  g5.delta = mode == AdaptiveIntMode::DeltaVarint;
  g5.rle = mode == AdaptiveIntMode::Rle;
  // left over from chunks before
  f.run_count_offset = vc_u64();
  f.stream_run_count = vc_u32();
  f.stream_prev_value = int64_t(vc_u64());
  f.stream_run_diff = int64_t(vc_u64());
  f.stream_run_raw = vc_u64();
  f.stream_run_len = vc_u64();
  f.stream_has_run = vc_bool();
  prepareAdaptiveIntFieldForChunk(f, 32768);
  vc_assert(f.streaming_section, "a section is written");
  uint8_t p[8];
  uint64_t total = 0;
  g5.live = true;
  while (vc_loop()) {
    vc_fresh_bytes(p);
    uint64_t v = 0;
    std::memcpy(&v, p, g5.bytes);
    const uint64_t d = g5.rle ? v : v - g5.last;
    uint64_t& run = g5.rle ? g5.value : g5.diff;
    if (g5.delta) { g5.diff = d; g5.cnt = 1; }
    collectAdaptiveIntValue(f, p);
    g5.last = v;
    if (g5.delta) vc_assert(g5.cnt == 0, "each value is written");
    else {
      if (g5.cnt == 0) run = d;
      vc_assert(((run ^ d) & g5.mask) == 0, "the values of a run are all alike");
      g5.cnt++;
    }
    total++;
    vc_assume(total <= 32768);
  }
  finishCommittedAdaptiveIntSection(f);
  vc_assert(g5.cnt == 0 && !g5.head, "the last run is written");
  const uint8_t* b = f.section_bytes.data();
  vc_assert(b[0] == uint8_t(mode), "a section starts with its mode");
  if (g5.delta) vc_assert(f.section_bytes.size() == 1, "then the differences");
  else {
    uint32_t runs;
    std::memcpy(&runs, b + 1, 4);
    vc_assert(f.section_bytes.size() == 5 && runs == uint32_t(g5.runs), "then the number of runs");
  }
  vc_cover("a section was written");
}
extern "C" {
void c12_write_delta() { write_section(AdaptiveIntMode::DeltaVarint); }
void c12_write_delta_rle() { write_section(AdaptiveIntMode::DeltaRle); }
void c12_write_rle() { write_section(AdaptiveIntMode::Rle); }
}

// ---- writers of a whole chunk: an arbitrary value of it lies in a run of its own difference (value)
namespace {
void bw_varint(int64_t value, BufferView&) {
  vc_assert(!g5.head, "a run is a difference and a length");
  g5.head = true;
  g5.diff = uint64_t(value);
}
void bw_raw(BufferView&, uint64_t value, size_t bytes) {
  vc_assert(!g5.head && bytes == g5.bytes, "a run is a value and a length");
  g5.head = true;
  g5.diff = value;
}
void bw_uvarint(uint64_t n, BufferView&) {
  vc_assert(g5.head, "a run is a difference and a length");
  vc_assert(n >= 1 && n <= g5.total - g5.points, "runs do not overlap");
  if ((g5.last >= g5.points) & (g5.last < g5.points + n)) {
    vc_assert(((g5.diff ^ g5.value) & g5.mask) == 0, "each value lies in a run of its difference");
    vc_cover("the value was written");
  }
  g5.head = false;
  g5.points += n;
  g5.runs++;
}
size_t bw_one(int64_t value, uint8_t* out) {
  vc_assert(out == g5.wire + g5.io, "the differences follow each other");
  vc_assert(g5.pos < g5.out_size, "no more differences than values");
  int64_t v;
  std::memcpy(&v, g5.out + g5.pos, 8);
  vc_assert((((uint64_t(v) - g5.last) ^ uint64_t(value)) & g5.mask) == 0, "each difference leads from one value to the next");
  g5.last = uint64_t(v);
  g5.pos += 8;
  const size_t n = vc_u64();
  vc_assume(n >= 1 && n <= 10);
  vc_assume(n <= g5.wire_size - g5.io);
  g5.io += n;
  g5.step += 10;
  vc_assume(g5.step < (1ull << 40));
  return n;
}
template <class T> const std::vector<T>& any_vector(void** rep, uint64_t n) {
  uint8_t* p = (uint8_t*)vc_buffer(8 * n);
  g5.out = p;
  g5.out_size = 8 * n;
  rep[0] = p;
  rep[1] = rep[2] = p + 8 * n;
  return *reinterpret_cast<const std::vector<T>*>(rep);
}
void any_mask() {
  g5.bytes = 8;
  g5.mask = ~0ull;
}
}  // namespace
static void write_chunk(bool rle) {
  vc_unroll(1);
  any_mask();
  g5.total = vc_u64();
  vc_assume(g5.total >= 1 && g5.total <= 32768);
  void* rep[3];
  auto& values = any_vector<uint64_t>(rep, g5.total);
  vc_replace("appendVarint64\\(", (void (*)())bw_varint);
  vc_replace("appendUVarint\\(", (void (*)())bw_uvarint);
  vc_replace("appendRawBits\\(", (void (*)())bw_raw);
  const uint64_t k = vc_u64();
  vc_assume(k < g5.total);
  g5.last = k;
  const uint64_t before = rle || k == 0 ? 0 : values[k - 1];
  g5.value = values[k] - before;
  vc_index(k, g5.value, before);
  uint8_t buf[8];
  BufferView out(buf, 8);
  if (rle) appendRleSection(values, 8, out);
  else appendDeltaRleSection(reinterpret_cast<const std::vector<int64_t>&>(values), out);
  vc_assert(g5.points == g5.total && !g5.head, "all values are written");
  uint32_t runs;
  std::memcpy(&runs, buf + 1, 4);
  vc_assert(buf[0] == uint8_t(rle ? AdaptiveIntMode::Rle : AdaptiveIntMode::DeltaRle) && runs == uint32_t(g5.runs) && out.data() == buf + 5, "a section starts with its mode and the number of runs");
  vc_cover("a section was written");
}
extern "C" {
void c12_chunk_rle() { write_chunk(true); }
void c12_chunk_delta_rle() { write_chunk(false); }
void c12_chunk_delta() {
  vc_unroll(1);
  any_mask();
  g5.total = vc_u64();
  vc_assume(g5.total >= 1 && g5.total <= 32768);
  void* rep[3];
  auto& values = any_vector<int64_t>(rep, g5.total);
  vc_replace("encodeVarint64\\(", (void (*)())bw_one);
  g5.wire_size = 1 << 30;
  uint8_t* wire = (uint8_t*)vc_buffer(g5.wire_size);
  g5.wire = wire;
  g5.io = g5.step = 1;
  BufferView out(wire, g5.wire_size);
  appendDeltaVarintSection(values, out);
  vc_assert(g5.pos == g5.out_size, "all values are written");
  vc_assert(g5.io <= g5.step, "in a mode byte and ten bytes per value");
  vc_assert(wire[0] == uint8_t(AdaptiveIntMode::DeltaVarint) && out.data() == g5.wire + g5.io, "a section is its mode and the differences");
  vc_cover("a section was written");
}
}

// ---- run lengths
extern "C" {
void c12_uvarint() {
  const uint64_t v = vc_u64();
  uint8_t b[10];
  BufferView out(b, 10);
  appendUVarint(v, out);
  const size_t n = 10 - out.size();
  vc_assert(v == 0 || n <= v, "a run length takes no more bytes than the run has values");
  std::vector<uint8_t> w;
  appendUVarint(v, w);
  vc_assert(w.size() == n && same_bytes_n(w.data(), b, n, n), "both writers agree");
  const size_t total = vc_u64();
  vc_assume(total >= n && total <= 10);
  ConstBufferView in(b, total);
  vc_nothrow("what was written can be read");
  vc_assert(readUVarint(in) == v, "the run length is read as it was written");
  vc_assert(in.data() == b + n && in.size() == total - n, "exactly its bytes are read");
  vc_cover("read");
}
void c12_uvarint_any() {
  const size_t total = vc_u64();
  vc_assume(total <= (1ull << 40));
  uint8_t* b = (uint8_t*)vc_buffer(total);
  ConstBufferView in(b, total);
  const bool ok = attempt([&] { readUVarint(in); });
  if (ok) {
    vc_assert(in.size() <= total && total - in.size() >= 1 && total - in.size() <= 10 && in.data() == b + (total - in.size()), "at least one byte and no more than ten are read");
    vc_cover("read");
  }
}
}

// ---- palette: bounded, up to kMost values
namespace {
uint64_t r_hash(uint64_t v) { return vc_fn1("hash", v); }
uint64_t some_type(V5AdaptiveIntField& f) {
  any_int_field(f);
  return g5.bytes;
}
}  // namespace
extern "C" {
void c12_bits() {
  const uint64_t bits = vc_concrete(vc_u64() & 31);
  vc_assume(bits >= 1 && bits <= 16);
  const uint64_t n = vc_concrete(vc_u64() & 15);
  vc_assume(n >= 1 && n <= 10);
  std::vector<uint32_t> v(n);
  for (size_t i = 0; i < n; i++) {
    v[i] = vc_u32();
    vc_assume(v[i] < (1u << bits));
  }
  uint8_t buf[24];
  BufferView out(buf, 24);
  appendBitpackedIndexes(v, uint8_t(bits), out);
  vc_assert(24 - out.size() == (n * bits + 7) / 8, "the indexes fill their bytes");
  const uint8_t* p = buf;
  uint64_t scratch = 0;
  uint8_t held = 0;
  bool same = true;
  for (size_t i = 0; i < n; i++) same = same & (readBitpackedIndex(p, scratch, held, uint8_t(bits)) == v[i]);
  vc_assert(same, "the indexes are read as they were written");
  vc_assert(p <= buf + (n * bits + 7) / 8, "no byte beyond them is read");
  vc_cover("read");
}
void c12_bits_needed() {
  vc_unroll(40);
  const uint64_t n = vc_u64();
  vc_assume(n >= 1 && n <= 65536);
  const uint8_t bits = bitsForPaletteIndex(n);
  vc_assert(bits <= 16 && (n - 1) >> bits == 0, "every index of the palette fits its bits");
  vc_cover("n");
}
// the table of a palette after any chunks before: an arbitrary slot of it
void c12_palette_table() {
  vc_unroll(20);
  V5AdaptiveIntField f;
  f.palette_generation = vc_u32();
  void* rep[3];
  uint8_t* gen = (uint8_t*)vc_buffer(64);
  rep[0] = gen;
  rep[1] = rep[2] = gen + 64;
  f.palette_slot_generations.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep));
  void* rep2[3];
  uint8_t* slots = (uint8_t*)vc_buffer(64);
  rep2[0] = slots;
  rep2[1] = rep2[2] = slots + 64;
  f.palette_slots.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep2));
  const uint64_t k = vc_u64();
  vc_assume((k < 16) & (f.palette_generation >= 1));
  vc_assume(f.palette_slot_generations[k] <= f.palette_generation);
  const uint64_t n = vc_u64();
  vc_assume((n >= 1) & (n <= 8));
  preparePaletteTable(f, n);
  vc_assert(f.palette_slots.size() == 16 && f.palette_slot_generations.size() == 16, "the table is large enough already");
  vc_assert(f.palette_generation >= 1 && f.palette_slot_generations[k] < f.palette_generation, "every slot is free");
  vc_cover("a table");
  f.palette_slot_generations.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep));
  f.palette_slots.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep2));
}
void c12_palette_table_grows() {
  vc_unroll(40);
  V5AdaptiveIntField f;
  f.palette_generation = vc_u32();
  vc_assume(f.palette_generation >= 1);
  f.palette_slots.resize(4);
  f.palette_slot_generations.resize(4);
  const uint64_t n = vc_bool() ? 3 : 9;
  preparePaletteTable(f, n);
  const uint64_t k = vc_u64();
  const size_t size = f.palette_slots.size();
  vc_assert(size >= 2 * n && (size & (size - 1)) == 0 && f.palette_slot_generations.size() == size, "the table has a power of two slots, twice the values or more");
  vc_assume(k < size);
  vc_assert(f.palette_slot_generations[k] < f.palette_generation, "every slot is free");
  vc_cover("a table");
}
// one value: any table of 16 slots that refers to the values of the palette
void c12_palette_add() {
  vc_replace("hashPaletteValue\\(", (void (*)())r_hash);
  V5AdaptiveIntField f;
  f.palette_generation = vc_u32();
  void* rep[3];
  uint8_t* gen = (uint8_t*)vc_buffer(64);
  rep[0] = gen;
  rep[1] = rep[2] = gen + 64;
  f.palette_slot_generations.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep));
  void* rep2[3];
  uint8_t* slots = (uint8_t*)vc_buffer(64);
  rep2[0] = slots;
  rep2[1] = rep2[2] = slots + 64;
  f.palette_slots.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep2));
  const uint64_t n = vc_concrete(vc_u64() & 3);
  vc_unroll(20);   // for each n
  f.palette.reserve(4);
  uint64_t old[3] = {0, 0, 0};
  for (size_t i = 0; i < n; i++) f.palette.push_back(old[i] = vc_u64());
  for (int i = 0; i < 16; i++) vc_assume((f.palette_slot_generations[i] != f.palette_generation) | ((f.palette_slots[i] >= 1) & (f.palette_slots[i] <= n)));
  const uint64_t value = vc_u64();
  vc_unroll(1);
  const uint32_t r = addPaletteValue(f, value);
  const size_t size = f.palette.size();
  vc_assert(size == n || size == n + 1, "at most one value is added");
  vc_assert(r < size && f.palette[r] == value, "the index is that of the value");
  bool same = true;
  for (size_t i = 0; i < n; i++) same = same & (f.palette[i] == old[i]);
  vc_assert(same, "the values before stay where they are");
  const uint64_t k = vc_u64();
  vc_assume(k < 16);
  vc_assert((f.palette_slot_generations[k] != f.palette_generation) | ((f.palette_slots[k] >= 1) & (f.palette_slots[k] <= size)), "every slot in use refers to a value");
  vc_cover("added");
  f.palette_slot_generations.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep));
  f.palette_slots.swap(*reinterpret_cast<std::vector<uint32_t>*>(rep2));
}
}
namespace {
// contract of addPaletteValue (c12_palette_add)
uint32_t r_add(V5AdaptiveIntField& f, uint64_t value) {
  if (vc_bool()) {
    f.palette.push_back(value);
    return uint32_t(f.palette.size() - 1);
  }
  const uint64_t i = vc_concrete(vc_u64() & 7);
  vc_assume(i < f.palette.size());
  vc_assume(f.palette[i] == value);
  return uint32_t(i);
}
}  // namespace
extern "C" {
void c12_palette() {
  vc_replace("addPaletteValue\\(", (void (*)())r_add);
  V5AdaptiveIntField f;
  some_type(f);
  f.committed = true;
  f.committed_mode = AdaptiveIntMode::Palette;
  f.offset = 0;
  const uint64_t n = vc_concrete(vc_u64() & 7);
  vc_assume(n >= 1 && n <= 5);
  uint8_t cloud[40], back[40];
  vc_fresh_bytes(cloud);
  prepareAdaptiveIntFieldForChunk(f, n);
  for (size_t i = 0; i < n; i++) collectAdaptiveIntValue(f, cloud + i * g5.bytes);
  uint8_t buf[80];
  BufferView out(buf, 80);
  appendCommittedAdaptiveIntSection(f, out);
  const size_t size = 80 - out.size();
  ConstBufferView in(buf, size);
  vc_nothrow("what was written can be read");
  decodeV5AdaptiveIntSection(f, in, back, g5.bytes, n);
  vc_assert(in.empty(), "exactly the section is read");
  vc_assert(same_bytes(back, cloud, n * g5.bytes), "every value is read as it was written");
  vc_cover("a section was read");
}
}
