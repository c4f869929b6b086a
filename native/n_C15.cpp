// FLAGS: -I/usr/include/pcl-1.14 -I/usr/include/eigen3
// SRC: pcl_conversion.cpp
// LIBS: -lpcl_io -lpcl_common -lboost_filesystem -lboost_system
#include "cloud.hpp"
#include "cloudini_lib/pcl_conversion.hpp"
// PCL clouds and PCD files
static float val(Gen& g, double res) {
  uint64_t b = cl::gen_float_bits(g, FieldType::FLOAT32, true, res, 0);
  uint32_t w = uint32_t(b); float f; memcpy(&f, &w, 4); return f;
}
static void close(float a, float b, double res, const char* what) {
  NAT_CHECK(std::isnan(a) == std::isnan(b), what << ": NaN");
  if (!std::isnan(a)) NAT_CHECK(cl::within(FieldType::FLOAT32, a, b, float(res)), what << ": " << a << " became " << b << " with resolution " << res);
}
template <class P> static std::vector<uint8_t> enc(const pcl::PointCloud<P>& c, double res) {
  std::vector<uint8_t> s;
  std::streambuf* o = std::cout.rdbuf(nullptr);
  try { size_t n = PointcloudEncode(c, s, res); std::cout.rdbuf(o); std::cout.clear(); NAT_CHECK(n <= s.size(), "size"); s.resize(n); } catch (...) { std::cout.rdbuf(o); std::cout.clear(); throw; }
  return s;
}
static uint32_t f2u(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static void run(Gen& g) {
  double res = cl::gen_res(g);
  size_t n = 1 + g.below(g.chance(97) ? 60 : 40000);
  g.nontrivial = n >= 2;
  int kind = int(g.below(6));
  if (kind <= 1) {  // templated clouds
    pcl::PointCloud<pcl::PointXYZI> a;
    a.points.resize(n); a.height = n % 2 == 0 && g.chance(30) ? 2 : 1; a.width = uint32_t(n / a.height);
    for (auto& p : a.points) { p.x = val(g, res); p.y = val(g, res); p.z = val(g, res); p.intensity = val(g, 1); }
    g.mix(a.points.data(), 16);
    g.desc << "XYZI cloud " << n << " points res=" << res;
    auto s = enc(a, res);
    pcl::PointCloud<pcl::PointXYZI> b;
    PointcloudDecode(ConstBufferView(s.data(), s.size()), b);
    NAT_CHECK(b.points.size() == n && b.width == a.width && b.height == a.height, "size of the decoded cloud");
    for (size_t k = 0; k < n; k++) {
      close(a.points[k].x, b.points[k].x, res, "x"); close(a.points[k].y, b.points[k].y, res, "y"); close(a.points[k].z, b.points[k].z, res, "z");
      NAT_CHECK(f2u(a.points[k].intensity) == f2u(b.points[k].intensity), "intensity");
    }
    pcl::PointCloud<pcl::PointXYZ> c;   // a narrower type: the other fields are dropped
    PointcloudDecode(ConstBufferView(s.data(), s.size()), c);
    NAT_CHECK(c.points.size() == n && c.width == a.width && c.height == a.height, "size of the decoded cloud");
    for (size_t k = 0; k < n; k++) { close(a.points[k].x, c.points[k].x, res, "x as XYZ"); close(a.points[k].y, c.points[k].y, res, "y as XYZ"); close(a.points[k].z, c.points[k].z, res, "z as XYZ"); }
    auto sc = enc(c, res);              // a wider type: the missing field is untouched
    pcl::PointCloud<pcl::PointXYZI> d;
    PointcloudDecode(ConstBufferView(sc.data(), sc.size()), d);
    for (size_t k = 0; k < n; k++) { close(c.points[k].x, d.points[k].x, res, "x of XYZ as XYZI"); close(c.points[k].z, d.points[k].z, res, "z of XYZ as XYZI"); NAT_CHECK(d.points[k].intensity == 0, "intensity of XYZ as XYZI"); }
  } else if (kind <= 3) {  // PCLPointCloud2
    cl::Opt o; o.max_fields = 5; o.big = g.chance(4); o.resolution = false;
    o.types = {FieldType::INT8, FieldType::UINT8, FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::FLOAT32, FieldType::FLOAT64};
    auto c = cl::gen(g, o);
    pcl::PCLPointCloud2 p;
    p.width = c.info.width; p.height = c.info.height; p.point_step = c.info.point_step; p.row_step = p.width * p.point_step;
    bool lz = g.chance(50);
    c.info.encoding_opt = EncodingOptions::LOSSY;
    for (auto& f : c.info.fields) {
      pcl::PCLPointField q; q.name = f.name; q.offset = f.offset; q.datatype = uint8_t(f.type); q.count = 1;
      p.fields.push_back(q);
      if (f.type == FieldType::FLOAT32 && lz) {
        f.resolution = float(res);
        for (size_t k = 0; k < c.n; k++) { float v = val(g, res); memcpy(&c.data[k * p.point_step + f.offset], &v, 4); }
      } else f.resolution.reset();
    }
    p.data.assign(c.data.begin(), c.data.end());
    std::vector<uint8_t> s;
    size_t z = PCLPointCloudEncode(p, s, lz ? res : 0.0);
    NAT_CHECK(z == s.size(), "size of the encoded cloud");
    pcl::PCLPointCloud2 q;
    PCLPointCloudDecode(ConstBufferView(s.data(), s.size()), q);
    NAT_CHECK(q.width == p.width && q.height == p.height && q.point_step == p.point_step && q.row_step == p.row_step && q.fields.size() == p.fields.size() && q.data.size() == p.data.size(), "metadata of the decoded cloud");
    for (size_t k = 0; k < p.fields.size(); k++) NAT_CHECK(p.fields[k].name == q.fields[k].name && p.fields[k].offset == q.fields[k].offset && p.fields[k].datatype == q.fields[k].datatype && q.fields[k].count == 1, "field " << k << " of the decoded cloud");
    cl::compare(c, q.data.data(), cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
  } else if (kind == 4) {  // the header of a PCD file
    std::ostringstream f;
    size_t nf = 1 + g.below(8);
    std::vector<FieldType> want;
    std::string fields = "FIELDS", size = "SIZE", type = "TYPE", count = "COUNT";
    for (size_t k = 0; k < nf; k++) {
      static const FieldType t[] = {FieldType::INT8, FieldType::UINT8, FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::FLOAT32, FieldType::FLOAT64, FieldType::INT64, FieldType::UINT64};
      int w = int(g.below(10));
      want.push_back(t[w]);
      fields += " f" + std::to_string(k); size += " " + std::to_string(SizeOf(t[w])); count += " 1";
      type += w == 6 || w == 7 ? " F" : w == 8 || (w < 6 && w % 2 == 0) ? " I" : " U";
    }
    const char* nl = g.chance(20) ? "\r\n" : "\n";
    if (g.chance(60)) f << "# .PCD v0.7 - Point Cloud Data file format" << nl;
    f << "VERSION 0.7" << nl << fields << nl << size << nl << type << nl << count << nl << "WIDTH 1" << nl << "HEIGHT 1" << nl << "VIEWPOINT 0 0 0 1 0 0 0" << nl << "POINTS 1" << nl << "DATA binary" << nl << "xyz";
    g.desc << f.str();
    g.mix(type.data(), type.size());
    std::istringstream i(f.str());
    auto m = ReadEncodingInfoFromPCD(i);
    NAT_CHECK(m.size() == nf, m.size() << " fields instead of " << nf);
    for (size_t k = 0; k < nf; k++) { auto it = m.find("f" + std::to_string(k)); NAT_CHECK(it != m.end() && it->second == want[k], "type of field " << k << ": " << (it == m.end() ? "none" : ToString(it->second)) << " instead of " << ToString(want[k])); }
  } else {  // a PCD file
    if (!g.chance(20)) return;
    n = 1 + g.below(20);
    char path[] = "/tmp/natpcdXXXXXX";
    int fd = mkstemp(path);
    NAT_CHECK(fd >= 0, "scratch file");
    struct Rm { const char* p; ~Rm() { unlink(p); } } rm{path};
    std::ostringstream f;
    f << (g.chance(50) ? "# .PCD v0.7 - Point Cloud Data file format\n" : "") << "VERSION 0.7\nFIELDS x y z stamp tick\nSIZE 4 4 4 8 8\nTYPE F F F U I\nCOUNT 1 1 1 1 1\nWIDTH " << n << "\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS " << n << "\nDATA binary\n";
    std::vector<uint8_t> d(n * 28);
    for (size_t k = 0; k < n; k++) {
      for (int q = 0; q < 3; q++) { float v = val(g, res); memcpy(&d[k * 28 + 4 * q], &v, 4); }
      for (int q = 0; q < 2; q++) { uint64_t v = g.word(); memcpy(&d[k * 28 + 12 + 8 * q], &v, 8); }
    }
    g.desc << f.str() << nat::hex(d.data(), d.size());
    g.mix(d.data(), d.size());
    std::string h = f.str();
    h.append((const char*)d.data(), d.size());
    NAT_CHECK(write(fd, h.data(), h.size()) == ssize_t(h.size()), "scratch file");
    ::close(fd);
    std::vector<uint8_t> s;
    PCLPointCloudEncode(std::filesystem::path(path), s, res);
    ConstBufferView v(s.data(), s.size());
    auto i = DecodeHeader(v);
    NAT_CHECK(i.fields.size() == 5 && i.fields[3].type == FieldType::UINT64 && i.fields[4].type == FieldType::INT64, "types of the fields of the PCD file");
    cl::Case c; c.info = i; c.n = n; c.data = d;
    std::vector<uint8_t> out;
    PointcloudDecoder().decode(i, v, out);
    NAT_CHECK(i.point_step == 28 && out.size() == d.size(), "size of the decoded PCD file");
    cl::compare(c, out.data(), cl::INTS | cl::EXACT | cl::LOSSY | cl::NANS);
  }
}
NAT_MAIN(run)
