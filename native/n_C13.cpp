#include "cloud.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
// PointCloud2 messages in CDR: an independent writer and reader are the oracle
struct W {
  std::vector<uint8_t> b = {0, 0, 0, 0};
  bool big;
  explicit W(bool big_) : big(big_) { b[1] = big ? 0 : 1; }
  void u32(uint32_t v) { while ((b.size() - 4) % 4) b.push_back(0); for (int i = 0; i < 4; i++) b.push_back(uint8_t(v >> (big ? 24 - 8 * i : 8 * i))); }
  void u8(uint8_t v) { b.push_back(v); }
  void str(const std::string& s) { u32(uint32_t(s.size() + 1)); b.insert(b.end(), s.begin(), s.end()); b.push_back(0); }
  void bytes(const uint8_t* p, size_t n) { u32(uint32_t(n)); b.insert(b.end(), p, p + n); }
};
struct Msg { int32_t sec; uint32_t nsec; std::string frame; uint32_t h, w, step, row; std::vector<PointField> f; std::vector<uint8_t> data; bool dense; };
static std::vector<uint8_t> write(const Msg& m, bool big) {
  W w(big);
  w.u32(uint32_t(m.sec)); w.u32(m.nsec); w.str(m.frame); w.u32(m.h); w.u32(m.w);
  w.u32(uint32_t(m.f.size()));
  for (auto& f : m.f) { w.str(f.name); w.u32(f.offset); w.u8(uint8_t(f.type)); w.u32(1); }
  w.u8(0); w.u32(m.step); w.u32(m.row); w.bytes(m.data.data(), m.data.size()); w.u8(m.dense);
  return w.b;
}
static void same(const cloudini_ros::RosPointCloud2& r, const Msg& m, const char* what) {
  NAT_CHECK(r.ros_header.stamp_sec == m.sec && r.ros_header.stamp_nsec == m.nsec && r.ros_header.frame_id == m.frame, what << ": header");
  NAT_CHECK(r.height == m.h && r.width == m.w && r.point_step == m.step && r.row_step == m.row, what << ": dimensions");
  NAT_CHECK(r.is_dense == m.dense, what << ": is_dense");
  NAT_CHECK(r.fields.size() == m.f.size(), what << ": number of fields");
  for (size_t i = 0; i < m.f.size(); i++)
    NAT_CHECK(r.fields[i].name == m.f[i].name && r.fields[i].offset == m.f[i].offset && r.fields[i].type == m.f[i].type, what << ": field " << i);
}
static void run(Gen& g) {
  cl::Opt o; o.max_fields = 5; o.big = g.chance(5);
  auto c = cl::gen(g, o);
  bool big = g.chance(30), empty = g.chance(6);
  Msg m;
  m.sec = int32_t(g.word()); m.nsec = uint32_t(g.word());
  m.frame = std::string(g.below(14), char('a' + g.below(26)));
  m.h = c.info.height; m.w = c.info.width; m.step = c.info.point_step; m.f = c.info.fields; m.data = c.data; m.dense = g.chance(50);
  for (auto& f : m.f) { f.name = std::string(1 + g.below(9), char('a' + g.below(26))); }
  if (empty) { m.h = g.below(2); m.w = 0; m.data.clear(); }
  m.row = m.step * m.w;
  auto raw = write(m, big);
  g.desc << (big ? " big-endian" : " little-endian") << " frame=" << m.frame << " dense=" << m.dense;
  cl::Heap h(raw.data(), raw.size());
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(h.p, h.n));
  same(pc, m, "deserialized");
  NAT_CHECK(pc.data.size() == m.data.size() && (m.data.empty() || !memcmp(pc.data.data(), m.data.data(), m.data.size())), "deserialized: data");
  NAT_CHECK((pc.cdr_header.endianness == nanocdr::Endianness::CDR_BIG_ENDIAN) == big, "endianness");
  // a copy of the message is the same message
  auto copy = pc;
  same(copy, m, "copy");
  auto moved = std::move(copy);
  same(moved, m, "moved");
  NAT_CHECK(moved.data.size() == m.data.size() && (m.data.empty() || !memcmp(moved.data.data(), m.data.data(), m.data.size())), "moved: data");
  // compress, deserialize, decompress
  EncodingInfo info = cloudini_ros::toEncodingInfo(pc);
  NAT_CHECK(info.width == m.w && info.height == m.h && info.point_step == m.step && info.fields == pc.fields, "toEncodingInfo");
  info.version = c.info.version; info.encoding_opt = c.info.encoding_opt; info.compression_opt = c.info.compression_opt; info.use_threads = c.info.use_threads;
  for (size_t i = 0; i < info.fields.size(); i++) info.fields[i].resolution = c.info.fields[i].resolution;
  std::vector<uint8_t> comp, back;
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, comp);
  cl::Heap hc(comp.data(), comp.size());
  auto cm = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(hc.p, hc.n));
  Msg mm = m;
  same(cm, mm, "compressed message");
  {  // the format string follows is_dense, and nothing follows it
    W f(big);
    f.b.resize(4 + (comp.size() > 13 + 3 ? 0 : 0));
    const char fmt[] = "cloudini";
    NAT_CHECK(comp.size() > 13 && !memcmp(comp.data() + comp.size() - 9, fmt, 9), "format string of the compressed message");
    uint32_t z; memcpy(&z, comp.data() + comp.size() - 13, 4);
    if (big) z = __builtin_bswap32(z);
    NAT_CHECK(z == 9, "length of the format string");
  }
  cloudini_ros::convertCompressedCloudToPointCloud2(cm, back);
  cl::Heap hb(back.data(), back.size());
  auto r = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(hb.p, hb.n));
  same(r, m, "restored message");
  NAT_CHECK(r.data.size() == m.data.size(), "restored: size of the data");
  NAT_CHECK(back.size() == raw.size(), "restored message has " << back.size() << " bytes instead of " << raw.size());
  // all but the data is the original message, byte by byte
  size_t pos = m.data.empty() ? raw.size() : size_t(pc.data.data() - h.p);
  NAT_CHECK(!memcmp(back.data(), raw.data(), pos) && !memcmp(back.data() + pos + m.data.size(), raw.data() + pos + m.data.size(), raw.size() - pos - m.data.size()), "restored message differs from the original outside of the data");
  if (!m.data.empty()) {
    cl::compare(c, r.data.data(), cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
  }
  // truncated messages are errors
  size_t cut = g.below(raw.size());
  cl::Heap t(raw.data(), cut);
  bool threw = false;
  try { cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(t.p, t.n)); } catch (const std::exception&) { threw = true; }
  NAT_CHECK(threw, "message truncated to " << cut << " of " << raw.size() << " bytes was accepted");
}
NAT_MAIN(run)
