// C07: the advertised worst cases add up, for any number of fields, points and chunks.
#include "drv.hpp"

namespace {
struct Sum {
  const EncodingInfo* info = nullptr;
  const uint8_t* fields = nullptr;
  uint64_t fields_size = 0, at = 0, sum = 0;
  uint64_t points = 0, left = 0, chunk = 0, per_point = 0, chunk_max = 0;
  bool v5 = false, too_large = false;
} su;

size_t c_max_field(const PointField& f, EncodingOptions o) {
  vc_assert((const uint8_t*)&f == su.fields + su.at, "each field is counted once");
  vc_assert(o == su.info->encoding_opt, "with the options of the cloud");
  su.at += sizeof(PointField);
  const size_t n = vc_u32();
  su.sum += n;
  return n;
}
// any number of fields of unknown content
void any_fields(EncodingInfo& info, void** rep, uint64_t most) {
  const uint64_t n = vc_u32();
  vc_assume(n <= most);
  su.fields_size = n * sizeof(PointField);
  uint8_t* p = (uint8_t*)vc_buffer(su.fields_size);
  su.fields = p;
  rep[0] = p;
  rep[1] = rep[2] = p + su.fields_size;
  info.fields.swap(*reinterpret_cast<std::vector<PointField>*>(rep));
}
void drop_fields(EncodingInfo& info, void** rep) { info.fields.swap(*reinterpret_cast<std::vector<PointField>*>(rep)); }

size_t c_point(const EncodingInfo& i) {
  vc_assert(&i == su.info, "of this cloud");
  return su.per_point;
}
bool c_v5(const EncodingInfo&) { return su.v5; }
size_t c_chunk(const EncodingInfo& i, size_t points) {
  vc_assert(&i == su.info && points == (su.left < 32768 ? su.left : 32768), "the chunk holds the next 32768 points or the rest");
  su.left -= points;
  const uint64_t n = vc_u64();
  vc_assume(n <= (1ull << 40));
  su.chunk = n;
  if (i.compression_opt == CompressionOption::NONE) su.sum += 4 + n;
  vc_cover("a chunk");
  return n;
}
}  // namespace

// contracts of LZ4 and ZSTD (trusted): the bound is at least the size of the input
extern "C" int LZ4_compressBound(int n) {
  vc_assert(n >= 0 && uint64_t(n) == su.chunk, "the bound of the compressed chunk");
  const int r = int(vc_u32());
  vc_assume(r >= n);
  su.sum += 4 + uint64_t(r);
  return r;
}
extern "C" size_t ZSTD_compressBound(size_t n) {
  vc_assert(n == su.chunk, "the bound of the compressed chunk");
  const size_t r = vc_u64();
  vc_assume(r >= n && r <= (1ull << 41));
  su.sum += 4 + r;
  return r;
}

extern "C" {
void c07_point() {
  vc_unroll(1);
  vc_replace("detail::MaxSerializedFieldSize", (void (*)())c_max_field);
  EncodingInfo info;
  void* rep[3];
  any_fields(info, rep, 1 << 20);
  info.encoding_opt = static_cast<EncodingOptions>(vc_u8());
  su.info = &info;
  const size_t n = detail::MaxSerializedPointSize(info);
  vc_assert(n == su.sum && su.at == su.fields_size, "the worst case of a point is the sum of its fields");
  vc_cover("summed");
  drop_fields(info, rep);
}
void c07_chunk() {
  vc_replace("detail::MaxSerializedPointSize", (void (*)())c_point);
  vc_replace("detail::UsesV5Codec", (void (*)())c_v5);
  EncodingInfo info;
  void* rep[3];
  any_fields(info, rep, 65535);
  su.info = &info;
  su.per_point = vc_u32();
  su.v5 = vc_bool();
  const uint64_t points = vc_u64();
  vc_assume(points <= 32768 && su.per_point <= 11 * 65535);
  const size_t n = detail::MaxStage1ChunkSize(info, points);
  const uint64_t fields = info.fields.size();
  if (su.v5) vc_assert(n >= points * (su.per_point + fields) + 5 * fields, "the worst case of the fields and, in format 5, of the sections: a mode, a run count, and a run length per point");
  else vc_assert(n >= points * su.per_point, "the worst case of all points");
  vc_cover("a chunk");
  drop_fields(info, rep);
}
void c07_stage_buffer() {
  vc_replace("detail::MaxSerializedPointSize", (void (*)())c_point);
  vc_replace("detail::UsesV5Codec", (void (*)())c_v5);
  EncodingInfo info;
  void* rep[3];
  any_fields(info, rep, 65535);
  su.info = &info;
  su.per_point = vc_u32();
  su.v5 = true;
  info.point_step = vc_u32();
  vc_assume(su.per_point <= 11 * 65535);
  const size_t n = detail::MaxStage1ChunkSize(info, 32768), b = detail::V5StageBufferSize(info, 32768);
  vc_assert(b >= n, "the buffer of the first stage has space for the worst case");
  vc_cover("a buffer");
  drop_fields(info, rep);
}
void c07_cloud() {
  vc_unroll(1);
  vc_replace("detail::MaxStage1ChunkSize", (void (*)())c_chunk);
  EncodingInfo info;
  su.info = &info;
  info.point_step = vc_u32();
  info.compression_opt = static_cast<CompressionOption>(vc_u8());
  su.left = su.points = vc_u64();
  vc_assume(su.points <= (1ull << 40));
  size_t n = 0;
  const bool ok = attempt([&] { n = MaxCompressedSize(info, su.points, false); });
  if (ok) {
    vc_assert(su.left == 0, "all points are counted");
    vc_assert(n == su.sum, "the worst case is the sum of the chunks and their sizes");
    vc_cover("summed");
  }
  vc_assert(ok | (info.point_step == 0) | (info.compression_opt != CompressionOption::NONE), "a size is computed");
}
}

namespace {
uint64_t yaml_size;
std::string c_yaml(const EncodingInfo&) { return std::string(yaml_size, 'x'); }
}  // namespace
extern "C" {
void c07_header() {
  vc_replace("EncodingInfoToYAML", (void (*)())c_yaml);
  EncodingInfo info;
  info.version = vc_u8();
  vc_assume(info.version >= 2 && info.version <= 5);
  info.point_step = 1 + vc_u8();
  yaml_size = vc_u32();
  std::vector<uint8_t> header;
  EncodeHeader(info, header);
  vc_assert(MaxCompressedSize(info, 0, true) >= header.size(), "the worst case of a cloud with its header has space for the header");
  vc_cover("a header");
}
}
