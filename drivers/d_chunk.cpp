// C08, C14: the loops over points, fields and chunks, for any number of each.  The field coders
// are any number of objects of which only the interface is known (contracts: the stubs below).
#include "coders.hpp"

static void encode_chunk(bool order) {
  if (order) vc_peel(true);
  g.order = order;
  g.bytes = !order;
  AnyEncoder proto;
  void* rep[3];
  auto& coders = any_coders<FieldEncoder>(proto, rep);
  EncodingInfo info;
  info.point_step = vc_u32();
  g.step = info.point_step;
  g.cloud_size = vc_u32();
  g.coded_size = vc_u32();
  vc_assume(g.step > 0 && g.cloud_size <= (1ull << 40) && g.coded_size <= (1ull << 40));
  g.cloud = (const uint8_t*)vc_buffer(g.cloud_size);
  g.coded = (const uint8_t*)vc_buffer(g.coded_size);
  g.pos = -g.step;
  const size_t ppc = vc_u64();
  ConstBufferView cloud(g.cloud, g.cloud_size);
  BufferView out((uint8_t*)g.coded, g.coded_size);
  const size_t n = detail::EncodeV4Stage1Chunk(info, coders, cloud, ppc, out);
  if (order) {
    vc_assert(cloud.data() == g.cloud + g.pos + g.step && cloud.size() == g.cloud_size - g.pos - g.step, "the cloud continues after the points of the chunk");
    vc_assert(g.points == ppc || cloud.empty(), "a chunk holds as many points as fit, or the rest");
    vc_assert(g.points <= ppc, "a chunk holds no more points than it may");
    vc_assert(g.k8 == g.n8, "every field of every point is coded");
    vc_assert(g.f8 == g.n8, "every coder is flushed");
  } else {
    vc_assert(n == g.io, "the size of a chunk is what its coders wrote");
    vc_assert(out.data() == g.coded + g.io && out.size() == g.coded_size - g.io, "the output continues after the chunk");
  }
  vc_cover("a chunk was coded");
}
static void decode_chunk(bool order) {
  vc_peel(order);
  g.order = order;
  g.bytes = !order;
  AnyDecoder proto;
  void* rep[3];
  auto& coders = any_coders<FieldDecoder>(proto, rep);
  g.step = vc_u32();
  g.cloud_size = vc_u64();
  g.coded_size = vc_u64();
  vc_assume(g.step > 0 && g.cloud_size <= (1ull << 40) && g.coded_size <= (1ull << 40));
  g.cloud = (const uint8_t*)vc_buffer(g.cloud_size);
  g.coded = (const uint8_t*)vc_buffer(g.coded_size);
  g.pos = -g.step;
  const size_t points = vc_u64();
  vc_assume(points > 0);
  ConstBufferView in(g.coded, g.coded_size);
  BufferView out((uint8_t*)g.cloud, g.cloud_size);
  detail::DecodeV4Stage1Chunk(coders, vc_u64(), in, out, g.step, points);
  if (order) {
    vc_assert(g.points == points, "exactly the points of the chunk are decoded");
    vc_assert(g.k8 == g.n8, "every field of every point is decoded");
    vc_assert(out.data() == g.cloud + g.pos + g.step && out.size() == g.cloud_size - g.pos - g.step, "the output continues after the points of the chunk");
  } else vc_assert(in.data() == g.coded + g.io && in.size() == g.coded_size - g.io, "the input continues after what was read");
  vc_cover("a chunk was decoded");
}
extern "C" {
void c08_encode_points() { encode_chunk(true); }
void c08_encode_bytes() { encode_chunk(false); }
void c08_decode_points() { decode_chunk(true); }
void c08_decode_bytes() { decode_chunk(false); }
}

// ---------------------------------------------------------------- chunks of a cloud
namespace {
struct Frame {
  const uint8_t* data = nullptr;
  uint64_t size = 0, pos = 0, points = 0, total = 0;
  bool stub_failed = false;
} fr;

void c_update_decoders(PointcloudDecoder*, const EncodingInfo&) {}
void c_decode_chunk(PointcloudDecoder*, const EncodingInfo&, ConstBufferView chunk, BufferView&, size_t expected) {
  vc_assert(fr.pos <= fr.size && fr.size - fr.pos >= 4, "a chunk starts with its size");
  uint32_t declared;
  memcpy(&declared, fr.data + fr.pos, 4);
  vc_assert(chunk.data() == fr.data + fr.pos + 4 && chunk.size() == declared, "a chunk is what follows its size");
  vc_assert(declared <= fr.size - fr.pos - 4, "a chunk lies inside the data");
  vc_assert(fr.points < fr.total, "no chunk beyond the last point");
  vc_assert(expected == std::min<uint64_t>(fr.total - fr.points, 32768), "a chunk holds the next 32768 points or the rest");
  vc_cover("a chunk");
  if (vc_bool()) { fr.stub_failed = true; throw std::runtime_error("the chunk cannot be decoded"); }
  fr.pos += 4 + uint64_t(declared);
  fr.points += expected;
}
}  // namespace
extern "C" {
void c08_framing() {
  vc_unroll(1);
  vc_replace("PointcloudDecoder::updateDecoders", (void (*)())c_update_decoders);
  vc_replace("PointcloudDecoder::decodeChunk", (void (*)())c_decode_chunk);
  EncodingInfo info;
  info.version = vc_u8();
  vc_assume(info.version >= 3);
  info.width = vc_u32();
  info.height = vc_u32();
  fr.total = uint64_t(info.width) * info.height;
  fr.size = vc_u64();
  vc_assume(fr.size <= (1ull << 40));
  fr.data = (const uint8_t*)vc_buffer(fr.size);
  const bool header = fr.size >= kMagicHeaderLength && memcmp(fr.data, kMagicHeader, kMagicHeaderLength) == 0;
  PointcloudDecoder dec;
  const bool ok = attempt([&] { dec.decode(info, ConstBufferView(fr.data, fr.size), BufferView()); });
  const uint64_t left = fr.size - fr.pos;
  uint32_t declared = 0;
  if (left >= 4) memcpy(&declared, fr.data + fr.pos, 4);
  if (ok) {
    vc_assert(fr.points == fr.total, "all declared points were decoded");
    vc_assert(left == 0, "all chunks were decoded");
    vc_cover("a cloud was decoded");
  } else {
    vc_assert(fr.stub_failed | header | (left != 0 && fr.points == fr.total) | (left == 0 && fr.points != fr.total) | (left != 0 && left < 4) | (left >= 4 && declared > left - 4),
              "only malformed data is rejected");
    vc_cover("a cloud was rejected");
  }
}
}

// ---------------------------------------------------------------- one chunk on the wire
namespace {
struct Wire {
  const uint8_t* out = nullptr;
  uint64_t out_size = 0;
  const uint8_t* in = nullptr;
  uint64_t in_size = 0;
  uint64_t coded = 0;
  bool failed = false;
  uint64_t calls = 0;
} wi;

// contract of CompressChunk: the compressed bytes go to the front of the output, their size is returned
uint32_t c_compress(CompressionOption, ConstBufferView input, BufferView& output) {
  vc_assert(input.data() == wi.in && input.size() == wi.in_size, "the whole first stage is compressed");
  vc_assert(output.data() == wi.out + 4 && output.size() == wi.out_size - 4, "the compressed bytes follow their size");
  wi.calls++;
  if (vc_bool()) { wi.failed = true; throw std::runtime_error("compression failed"); }
  const uint32_t n = vc_u32();
  vc_assume(n <= output.size());
  wi.coded = n;
  output.trim_front(n);
  return n;
}
}  // namespace
extern "C" {
void c08_write_chunk() {
  vc_replace("detail::CompressChunk", (void (*)())c_compress);
  EncodingInfo info;
  info.compression_opt = static_cast<CompressionOption>(vc_concrete(vc_u64() & 3));
  const bool none = info.compression_opt == CompressionOption::NONE;
  wi.in_size = vc_u64();
  wi.out_size = vc_u64();
  vc_assume(wi.in_size <= (1ull << 40) && wi.out_size <= (1ull << 40));
  vc_assume(wi.out_size >= 4);   // the capacity is checked by the caller: C07
  wi.in = (const uint8_t*)vc_buffer(wi.in_size);
  wi.out = (const uint8_t*)vc_buffer(wi.out_size);
  BufferView out((uint8_t*)wi.out, wi.out_size);
  size_t n = 0;
  const bool ok = attempt([&] { n = detail::WriteStage1Chunk(info, ConstBufferView(wi.in, wi.in_size), out); });
  const bool huge = (wi.in_size >> 32) != 0;
  if (ok) {
    const uint64_t coded = none ? wi.in_size : wi.coded;
    uint32_t size;
    memcpy(&size, wi.out, 4);
    vc_assert(size == coded, "a chunk is preceded by its exact size");
    vc_assert(n == coded + 4, "the size of the chunk and of its prefix is returned");
    vc_assert(out.data() == wi.out + n && out.size() == wi.out_size - n, "the output continues after the chunk");
    if (none) {
      const uint64_t i = vc_u64();
      vc_assume(i < wi.in_size);
      vc_assert(wi.out[4 + i] == wi.in[i], "an uncompressed chunk holds the bytes of the first stage");
    } else vc_assert(wi.calls == 1, "the first stage is compressed once");
    vc_cover("a chunk was written");
  } else vc_assert(huge | wi.failed | (none & (wi.out_size < wi.in_size + 4)), "a chunk that fits is written");
}
}

// ---------------------------------------------------------------- a compressed chunk is decoded
namespace {
struct Dec {
  EncodingInfo* info = nullptr;
  const uint8_t* chunk = nullptr;
  uint64_t chunk_size = 0;
  const uint8_t* stage = nullptr;
  uint64_t stage_size = 0, expected = 0, worst = 0;
  const uint8_t* out = nullptr;
  uint64_t out_size = 0;
  uint64_t decodes = 0;
  bool v5 = false, failed = false;
} de;
bool c_uses_v5(const EncodingInfo&) { return de.v5; }
size_t c_max_chunk(const EncodingInfo& i, size_t points) {
  vc_assert(&i == de.info && points == (de.expected ? de.expected : uint64_t(i.width) * i.height), "the worst case of this chunk");
  return de.worst;
}
ConstBufferView c_decompress(CompressionOption c, ConstBufferView chunk, std::vector<uint8_t>&, size_t most) {
  vc_assert(c == de.info->compression_opt && chunk.data() == de.chunk && chunk.size() == de.chunk_size, "the chunk is decompressed");
  vc_assert(most >= de.worst, "what is decompressed may be as large as the worst case of the first stage");
  if (vc_bool()) { de.failed = true; throw std::runtime_error("decompression failed"); }
  return ConstBufferView(de.stage, de.stage_size);
}
void stage(ConstBufferView& in, BufferView& out, uint64_t expected) {
  vc_assert(in.data() == de.stage && in.size() == de.stage_size, "the decompressed chunk is decoded");
  vc_assert(out.data() == de.out && out.size() == de.out_size, "the points go to the output");
  vc_assert(expected == de.expected, "as many points as the chunk holds");
  de.decodes++;
  if (vc_bool()) { de.failed = true; throw std::runtime_error("decoding failed"); }
}
void c_stage4(std::vector<std::unique_ptr<FieldDecoder>>&, size_t, ConstBufferView& in, BufferView& out, size_t step, size_t expected) {
  vc_assert(!de.v5 && step == de.info->point_step, "the first stage of format 4");
  stage(in, out, expected);
}
void c_stage5(const EncodingInfo& i, std::vector<std::unique_ptr<FieldDecoder>>&, ConstBufferView& in, BufferView& out, size_t expected) {
  vc_assert(de.v5 && &i == de.info, "the first stage of format 5");
  stage(in, out, expected);
}
}  // namespace
static void decode_one(bool framed) {
  vc_replace("detail::UsesV5Codec", (void (*)())c_uses_v5);
  vc_replace("detail::MaxStage1ChunkSize", (void (*)())c_max_chunk);
  vc_replace("detail::DecompressChunk", (void (*)())c_decompress);
  vc_replace("detail::DecodeV4Stage1Chunk", (void (*)())c_stage4);
  vc_replace("detail::DecodeV5Stage1Chunk", (void (*)())c_stage5);
  vc_replace("PointcloudDecoder::updateDecoders", (void (*)())c_update_decoders);
  EncodingInfo info;
  de.info = &info;
  info.version = framed ? 3 + vc_u8() % 8 : 2;   // a single chunk, with or without framing
  info.width = vc_u32();
  info.height = vc_u32();
  info.point_step = vc_u32();
  info.compression_opt = static_cast<CompressionOption>(vc_u8());
  const uint64_t prefix = framed ? 4 : 0;
  if (framed) {
    de.expected = uint64_t(info.width) * info.height;
    vc_assume(de.expected >= 1 && de.expected <= 32768);
  }
  de.v5 = vc_bool();
  de.worst = vc_u64();
  de.chunk_size = vc_u64();
  de.stage_size = vc_u64();
  de.out_size = vc_u64();
  vc_assume(de.chunk_size <= (1ull << 40) && de.stage_size <= (1ull << 40) && de.out_size <= (1ull << 40) && de.worst <= (1ull << 40));
  const uint8_t* data = (const uint8_t*)vc_buffer(prefix + de.chunk_size);
  const uint32_t prefixed = uint32_t(de.chunk_size);
  if (framed) { vc_assume(de.chunk_size >> 32 == 0); memcpy((uint8_t*)data, &prefixed, 4); }
  de.chunk = data + prefix;
  de.stage = (const uint8_t*)vc_buffer(de.stage_size);
  de.out = (const uint8_t*)vc_buffer(de.out_size);
  const bool header = de.chunk_size + prefix >= kMagicHeaderLength && memcmp(data, kMagicHeader, kMagicHeaderLength) == 0;
  PointcloudDecoder dec;
  const bool ok = attempt([&] { dec.decode(info, ConstBufferView(data, prefix + de.chunk_size), BufferView((uint8_t*)de.out, de.out_size)); });
  vc_assert(ok ? de.decodes == 1 : (de.failed | header), "the chunk is decoded once");
  vc_cover("a chunk was decoded");
}
extern "C" {
void c08_decode_chunk() { decode_one(true); }
void c08_decode_legacy() { decode_one(false); }
}

// ---------------------------------------------------------------- chunks of an encoded cloud
namespace {
struct Enc {
  const uint8_t* cloud = nullptr;
  uint64_t cloud_size = 0, pos = 0, step = 0, per_point = 0, worst = 0, worst_left = 0;
  const uint8_t* out = nullptr;
  uint64_t out_size = 0, io = 0;
  bool v5 = false, layout_failed = false, failed = false;
  bool open = false;          // a first stage was made and waits to be written
  uint64_t stage_size = 0;
  const uint8_t* stage = nullptr;
  const EncodingInfo* info = nullptr;
} en;
void c_encode_header(const EncodingInfo&, std::vector<uint8_t>& header, HeaderEncoding) {}
void c_build4(const EncodingInfo&, std::vector<std::unique_ptr<FieldEncoder>>&) {}
bool c_enc_v5(const EncodingInfo&) { return en.v5; }
void c_layout(const EncodingInfo&, bool allow_skip) {
  vc_assert(!allow_skip, "an encoder cannot skip a field");
  if (vc_bool()) { en.layout_failed = true; throw std::runtime_error("a field does not fit"); }
}
size_t c_worst(const EncodingInfo& i, size_t points, bool header) {
  vc_assert(!header && points * en.step == en.cloud_size, "the worst case of this cloud");
  return en.worst;
}
size_t c_per_point(const EncodingInfo&) { return en.per_point; }
size_t c_encode_stage(const EncodingInfo& i, std::vector<std::unique_ptr<FieldEncoder>>&, ConstBufferView& cloud, size_t ppc, BufferView& out) {
  vc_assert(!en.open, "every first stage is written before the next one is made");
  vc_assert(ppc == 32768, "a chunk holds 32768 points");
  vc_assert(cloud.data() == en.cloud + en.pos && cloud.size() == en.cloud_size - en.pos && !cloud.empty(), "a chunk continues where the one before stopped");
  vc_assert(out.size() >= 32768 * en.per_point && vc_offset(out.data()) == 0 && vc_objsize(out.data()) >= out.size(), "the first stage has space for the worst case");
  const uint64_t n = vc_u64();
  vc_assume(n > 0 && n <= cloud.size());
  cloud.trim_front(n);
  en.pos += n;
  en.stage = out.data();
  en.stage_size = vc_u64();
  vc_assume(en.stage_size <= out.size());
  out.trim_front(en.stage_size);
  en.open = true;
  vc_cover("a chunk");
  return en.stage_size;
}
size_t c_write(const EncodingInfo&, ConstBufferView in, BufferView& out) {
  vc_assert(en.open && in.data() == en.stage && in.size() == en.stage_size, "each first stage is written");
  vc_assert(out.data() == en.out + en.io && out.size() == en.out_size - en.io, "each chunk is written after the one before");
  en.open = false;
  // the worst case of the cloud is the sum of those of its chunks (contract of MaxCompressedSize: c07_cloud)
  const uint64_t bound = vc_u64();
  vc_assume(bound >= 4 && bound <= en.worst_left);
  en.worst_left -= bound;
  vc_assert(out.size() >= bound, "there is space for the worst case of each chunk");
  if (vc_bool()) { en.failed = true; throw std::runtime_error("the chunk cannot be written"); }
  const uint64_t n = vc_u64();
  vc_assume(n >= 4 && n <= bound);
  out.trim_front(n);
  en.io += n;
  return n;
}
}  // namespace
extern "C" {
void c08_encode_cloud() {
  vc_unroll(1);
  vc_replace("EncodeHeader\\(", (void (*)())c_encode_header);
  vc_replace("detail::BuildV4Encoders", (void (*)())c_build4);
  vc_replace("detail::UsesV5Codec", (void (*)())c_enc_v5);
  vc_replace("detail::CheckFieldsLayout", (void (*)())c_layout);
  vc_replace("MaxCompressedSize", (void (*)())c_worst);
  vc_replace("detail::MaxSerializedPointSize", (void (*)())c_per_point);
  vc_replace("detail::EncodeV4Stage1Chunk", (void (*)())c_encode_stage);
  vc_replace("detail::WriteStage1Chunk", (void (*)())c_write);
  EncodingInfo info;
  info.point_step = vc_u32();
  info.use_threads = false;
  info.compression_opt = static_cast<CompressionOption>(vc_u8());
  en.step = info.point_step;
  en.per_point = vc_u32();
  en.worst_left = en.worst = vc_u64();
  en.cloud_size = vc_u64();
  en.out_size = vc_u64();
  vc_assume(en.cloud_size <= (1ull << 40) && en.out_size <= (1ull << 40) && en.worst <= (1ull << 40) && en.per_point < 65536 && en.step < 65536);
  en.cloud = (const uint8_t*)vc_buffer(en.cloud_size);
  en.out = (const uint8_t*)vc_buffer(en.out_size);
  PointcloudEncoder enc(info);
  BufferView out((uint8_t*)en.out, en.out_size);
  size_t n = 0;
  const bool ok = attempt([&] { n = enc.encode(ConstBufferView(en.cloud, en.cloud_size), out, false); });
  if (ok) {
    vc_assert(!en.open && en.pos == en.cloud_size, "all points are encoded and written");
    vc_assert(n == en.io, "the size of the chunks is returned");
    vc_cover("a cloud was encoded");
  } else {
    vc_assert(en.failed | en.layout_failed | (en.step == 0) | (en.out_size < en.worst) | (en.cloud_size % (en.step | (en.step == 0)) != 0), "a cloud is rejected only for a reason");
    vc_cover("a cloud was rejected");
  }
}
}
