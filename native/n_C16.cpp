#include <map>
#include "cloud.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
// visualization preprocessing and resolution profiles
static void viz(Gen& g) {
  cloudini_ros::RosPointCloud2 pc;
  float res = cl::gen_res(g);
  uint32_t base = uint32_t(g.below(9));
  for (int k = 0; k < 3; k++) { PointField f; f.name = std::string(1, char('x' + k)); f.type = FieldType::FLOAT32; f.offset = base + 4 * k; f.resolution = res; pc.fields.push_back(f); }
  uint32_t off = base + 12;
  for (size_t k = 0, m = g.below(3); k < m; k++) { PointField f; f.name = "e" + std::to_string(k); f.type = FieldType(g.range(1, 10)); f.offset = off; off += SizeOf(f.type); if (g.chance(30)) f.resolution = 0.5f; pc.fields.push_back(f); }
  pc.point_step = off + uint32_t(g.below(4));
  int odd = int(g.below(12));  // some clouds have no geometry triple: they are left alone
  if (odd == 0) pc.fields[1].resolution = res * 2;
  if (odd == 1) pc.fields[2].offset += 1;
  if (odd == 2) pc.fields[0].type = FieldType::INT32;
  const bool applies = odd > 2;
  size_t n = g.below(g.chance(90) ? 60 : 3000);
  std::vector<uint8_t> d(n * pc.point_step);
  for (auto& b : d) b = uint8_t(g.u64());
  std::vector<std::array<float, 3>> v(n);
  for (size_t i = 0; i < n; i++) {
    if (i && g.chance(35)) { v[i] = v[g.below(i)]; if (g.chance(40)) v[i][g.below(3)] += res * 0.3f * float(int(g.below(5)) - 2); }
    else for (auto& x : v[i]) {
      switch (g.below(8)) {
        case 0: x = float(int(g.below(5)) - 2) * res; break;
        case 1: { uint32_t b = uint32_t(g.word()); memcpy(&x, &b, 4); break; }
        case 2: x = float(int64_t(g.below(1 << 22)) - (1 << 21)) * res; break;
        case 3: x = (g.chance(50) ? 1 : -1) * (1048575.0f + float(int(g.below(5)) - 2)) * res; break;
        default: x = (float(g.below(1 << 20)) / (1 << 20) - 0.5f) * 40 * res; break;
      }
    }
    memcpy(&d[i * pc.point_step + base], v[i].data(), 12);
  }
  cl::Heap h(d.data(), d.size());
  pc.width = uint32_t(n); pc.height = 1; pc.row_step = pc.width * pc.point_step;
  pc.data = ConstBufferView(h.p, h.n);
  g.desc << "viz res=" << res << " step=" << pc.point_step << " base=" << base << " odd=" << odd << " data=" << nat::hex(d.data(), d.size(), 600);
  g.mix(d.data(), d.size()); g.nontrivial = n >= 2;
  auto fields = pc.fields;
  cloudini_ros::applyVizLossyPreprocessing(pc);
  size_t m = pc.width, st = pc.point_step;
  NAT_CHECK(pc.height == 1 && pc.data.size() == m * st && pc.row_step == m * st, "dimensions of the result");
  NAT_CHECK(pc.fields.size() == fields.size(), "number of fields");
  for (size_t i = 0; i < fields.size(); i++) {
    bool q = applies && n && fields[i].type == FieldType::FLOAT64 && !fields[i].resolution;
    NAT_CHECK(pc.fields[i].name == fields[i].name && pc.fields[i].offset == fields[i].offset && pc.fields[i].type == fields[i].type && (q ? pc.fields[i].resolution == std::optional<float>(1e-6f) : pc.fields[i].resolution == fields[i].resolution), "field " << i);
  }
  if (!applies || n == 0) { NAT_CHECK(m == n && (n == 0 || !memcmp(pc.data.data(), d.data(), d.size())), "a cloud without geometry was changed"); return; }
  // the result is a subsequence; what is missing is not finite or near an earlier kept point
  auto near = [&](const std::array<float, 3>& a, const std::array<float, 3>& b) {
    for (int k = 0; k < 3; k++) if (std::fabs(double(a[k]) - b[k]) > res * (1 + 1e-5) + std::fabs(a[k]) * 1e-6) return false;
    return true;
  };
  std::vector<std::array<float, 3>> kept;
  std::map<std::array<float, 3>, int> exact;
  size_t j = 0;
  for (size_t i = 0; i < n; i++) {
    bool fin = std::isfinite(v[i][0]) && std::isfinite(v[i][1]) && std::isfinite(v[i][2]);
    bool same = j < m && !memcmp(pc.data.data() + j * st, d.data() + i * st, st);
    bool range = fin;
    for (float x : v[i]) if (!(std::fabs(double(x) / res) < 1048000.0)) range = false;
    std::array<float, 3> key = {v[i][0] + 0.0f, v[i][1] + 0.0f, v[i][2] + 0.0f};
    bool dup = range && exact.count(key);
    if (same && fin && !dup) { kept.push_back(v[i]); if (range) exact[key] = 1; j++; continue; }
    if (!fin || dup) continue;
    bool ok = false;
    for (auto& k : kept) if (near(v[i], k)) { ok = true; break; }
    NAT_CHECK(ok, "point " << i << " (" << v[i][0] << ", " << v[i][1] << ", " << v[i][2] << ") was lost, no kept point shares its voxel");
  }
  NAT_CHECK(j == m, m - j << " points of the result are not points of the input in order, not finite, or duplicates");
  // nothing is left to remove
  std::vector<uint8_t> once(pc.data.data(), pc.data.data() + pc.data.size());
  auto again = pc;
  cloudini_ros::applyVizLossyPreprocessing(again);
  NAT_CHECK(again.width == pc.width && (once.empty() || !memcmp(again.data.data(), once.data(), once.size())), "a second pass removes more points");
}
static void profile(Gen& g) {
  cloudini_ros::ResolutionProfile p;
  std::vector<PointField> f;
  for (size_t k = 0, m = g.below(8); k < m; k++) { PointField q; q.name = std::string(1, char('a' + g.below(8))) ; q.type = FieldType(g.range(1, 10)); q.offset = uint32_t(k * 8); if (g.chance(30)) q.resolution = 0.25f; f.push_back(q); }
  for (size_t k = 0, m = g.below(5); k < m; k++) p[std::string(1, char('a' + g.below(8)))] = g.chance(40) ? 0.0f : cl::gen_res(g);
  std::optional<float> def;
  if (g.chance(50)) def = cl::gen_res(g);
  g.desc << "profile of " << p.size() << " entries for " << f.size() << " fields";
  g.nontrivial = f.size() >= 2; uint64_t z = g.u64(); g.mix(&z, 8);
  auto r = f;
  cloudini_ros::applyResolutionProfile(p, r, def);
  size_t j = 0;
  for (auto& q : f) {
    auto it = p.find(q.name);
    if (it != p.end() && it->second == 0) continue;
    NAT_CHECK(j < r.size() && r[j].name == q.name && r[j].type == q.type && r[j].offset == q.offset, "field " << q.name << " was lost or moved");
    auto want = it != p.end() ? std::optional<float>(it->second) : def && q.type == FieldType::FLOAT32 ? def : q.resolution;
    NAT_CHECK(r[j].resolution == want, "resolution of field " << q.name);
    j++;
  }
  NAT_CHECK(j == r.size(), "fields were added");
}
static void run(Gen& g) { if (g.chance(80)) viz(g); else profile(g); }
NAT_MAIN(run)
