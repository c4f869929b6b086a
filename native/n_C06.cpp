#include "cloud.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
// arbitrary bytes through every decoder: an exception at worst
static const uint64_t kMax = 1u << 22;
static void mutate(Gen& g, std::vector<uint8_t>& v, size_t from) {
  size_t k = 1 + g.below(g.chance(50) ? 2 : 12);
  for (size_t q = 0; q < k && v.size() > from; q++) {
    size_t at = from + g.below(v.size() - from);
    if (g.chance(30)) at = from + g.below(std::min<size_t>(v.size() - from, 40));
    switch (g.below(8)) {
      case 0: v[at] ^= uint8_t(1u << g.below(8)); break;
      case 1: v[at] = uint8_t(g.u64()); break;
      case 2: v[at] = g.chance(50) ? 0xff : 0; break;
      case 3: { uint64_t w = g.word(); size_t m = std::min<size_t>(v.size() - at, 1 + g.below(8)); memcpy(&v[at], &w, m); break; }
      case 4: v.resize(at); break;
      case 5: v.erase(v.begin() + at, v.begin() + at + std::min<size_t>(v.size() - at, 1 + g.below(5))); break;
      case 6: { std::vector<uint8_t> w(1 + g.below(12)); for (auto& b : w) b = g.chance(30) ? 0x80 : g.chance(30) ? 0xff : uint8_t(g.u64()); v.insert(v.begin() + at, w.begin(), w.end()); break; }
      default: { size_t m = std::min<size_t>(v.size() - at, 1 + g.below(30)); for (size_t z = 0; z < m; z++) v[at + z] = g.chance(50) ? 0xff : 0x80; break; }
    }
  }
}
static bool sane(const EncodingInfo& i) {
  uint64_t n = uint64_t(i.width) * i.height;
  if (n > kMax || (n && i.point_step > kMax * 4 / n)) return false;
  if (n == 0 && uint64_t(i.point_step) > kMax) return false;
  uint64_t m = std::min<uint64_t>(n ? n : 1, 32768);
  return i.fields.size() * m * 12 < (1u << 28);
}
static void decode_info(Gen& g, const EncodingInfo& i, const uint8_t* p, size_t n) {
  if (!sane(i)) return;
  cl::Heap h(p, n);
  size_t want = size_t(i.width) * i.height * i.point_step;
  if (g.chance(20)) want = g.below(want + 1);
  cl::Heap o(want);
  PointcloudDecoder d;
  try { d.decode(i, ConstBufferView(h.p, n), BufferView(o.p, want)); } catch (const std::exception&) {}
}
static EncodingInfo random_info(Gen& g) {
  EncodingInfo i;
  i.version = uint8_t(g.chance(50) ? 5 : g.range(2, 6));
  i.width = uint32_t(g.below(g.chance(90) ? 40 : 40000));
  i.height = uint32_t(g.below(3));
  i.encoding_opt = EncodingOptions(g.chance(60) ? 1 : g.below(3));
  i.compression_opt = CompressionOption(g.chance(80) ? 0 : g.below(3));
  uint32_t off = 0;
  for (size_t k = 0, m = g.below(7), lead = g.chance(40) ? g.below(5) : 0; k < m; k++) {
    PointField f;
    f.name = "f";
    f.type = k < lead ? FieldType::FLOAT32 : FieldType(g.range(1, 10));
    if (g.chance(k < lead ? 95 : 60)) f.resolution = cl::gen_res(g);
    f.offset = g.chance(8) ? kDecodeButSkipStore : off + (g.chance(4) ? uint32_t(g.word()) : 0);
    off += uint32_t(SizeOf(f.type));
    i.fields.push_back(f);
  }
  i.point_step = g.chance(90) ? off : uint32_t(g.below(off + 3));
  return i;
}
static void run(Gen& g) {
  g.nontrivial = true;
  switch (g.below(6)) {
    case 0:
    case 1: {  // a valid stream, damaged
      cl::Opt o; o.max_fields = 5; o.big = g.chance(4);
      if (g.chance(70)) o.comp = 0;
      auto c = cl::gen(g, o);
      auto e = cl::encode(c);
      size_t at = cl::body_at(e);
      bool body = g.chance(70);
      mutate(g, e, body ? at : 0);
      g.desc << " mutated=" << nat::hex(e.data() + (body ? std::min(at, e.size()) : 0), e.size() - (body ? std::min(at, e.size()) : 0), 200);
      cl::Heap h(e.data(), e.size());
      ConstBufferView v(h.p, h.n);
      EncodingInfo i;
      try { i = DecodeHeader(v); } catch (const std::exception&) { return; }
      decode_info(g, i, v.data(), v.size());
      break;
    }
    case 2:
    case 3: {  // any schema, any chunk content
      auto i = random_info(g);
      std::vector<uint8_t> b;
      size_t chunks = g.chance(85) ? 1 : g.below(4);
      for (size_t k = 0; k < chunks; k++) {
        size_t m = g.below(g.chance(90) ? 200 : 4000);
        std::vector<uint8_t> c(m);
        int how = int(g.below(4));
        for (auto& x : c) x = how == 0 ? uint8_t(g.u64()) : how == 1 ? uint8_t(g.below(4)) : how == 2 ? (g.chance(40) ? 0x80 : g.chance(40) ? 0xff : uint8_t(g.below(8))) : uint8_t(g.chance(70) ? 0 : g.u64());
        uint32_t z = uint32_t(g.chance(95) ? m : g.word());
        if (i.version >= 3) { b.resize(b.size() + 4); memcpy(&b[b.size() - 4], &z, 4); }
        b.insert(b.end(), c.begin(), c.end());
      }
      g.desc << "arbitrary " << cl::show(i) << " data=" << nat::hex(b.data(), b.size());
      g.mix(b.data(), b.size());
      decode_info(g, i, b.data(), b.size());
      break;
    }
    case 4: {  // header only
      auto i = random_info(g);
      std::vector<uint8_t> e;
      EncodeHeader(i, e, g.chance(60) ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
      mutate(g, e, g.chance(80) ? 12 : 0);
      g.desc << "header=" << nat::hex(e.data(), e.size());
      g.mix(e.data(), e.size());
      cl::Heap h(e.data(), e.size());
      ConstBufferView v(h.p, h.n);
      try { auto r = DecodeHeader(v); NAT_CHECK(v.size() <= h.n && v.data() + v.size() == h.p + h.n, "the view left by DecodeHeader is not the tail of the input"); (void)r; } catch (const std::exception& x) { if (dynamic_cast<const nat::Fail*>(&x)) throw; }
      break;
    }
    default: {  // DDS messages
      cl::Opt o; o.max_fields = 4; o.big = false; o.threads = 0;
      if (g.chance(70)) o.comp = 0;
      auto c = cl::gen(g, o);
      cloudini_ros::RosPointCloud2 pc;
      if (g.chance(30)) pc.cdr_header.endianness = nanocdr::Endianness::CDR_BIG_ENDIAN;
      pc.ros_header.frame_id = std::string(g.below(9), 'm');
      pc.height = c.info.height; pc.width = c.info.width; pc.point_step = c.info.point_step; pc.fields = c.info.fields;
      pc.data = ConstBufferView(c.data.data(), c.data.size());
      std::vector<uint8_t> msg;
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, c.info, msg);
      mutate(g, msg, g.chance(70) ? 4 : 0);
      g.desc << " msg=" << nat::hex(msg.data(), msg.size());
      g.mix(msg.data(), msg.size());
      cl::Heap h(msg.data(), msg.size());
      try {
        auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(h.p, h.n));
        uint64_t n = uint64_t(m.width) * m.height;
        if (n > kMax || (n && m.point_step > kMax * 4 / n)) return;
        ConstBufferView v = m.data;
        auto i = DecodeHeader(v);
        if (!sane(i)) return;
        std::vector<uint8_t> out;
        cloudini_ros::convertCompressedCloudToPointCloud2(m, out);
        cloudini_ros::applyVizLossyPreprocessing(m);
      } catch (const std::exception&) {}
    }
  }
}
NAT_MAIN(run)
