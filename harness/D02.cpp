// materials of regions
#include "drw.hpp"
static const BH_Curve CURVES[] = {{}, {{1, 2000}, {1.42, 5000}}, {{1, 2000}, {1.42, 6000}}, {{1, 2000}, {1.42, 5000}, {1.7, 10000}}};
static void same(const MagnetostaticProp &a, const MagnetostaticProp &b, const std::string &l) {
  nk::eq(a.J, b.J, l); nk::eq(a.M.x, b.M.x, l); nk::eq(a.M.y, b.M.y, l); nk::eq(a.mu, b.mu, l);
  bool ok = a.bh_curve.size() == b.bh_curve.size();
  if (ok) for (auto i = a.bh_curve.begin(), j = b.bh_curve.begin(); i != a.bh_curve.end(); ++i, ++j) ok = ok && i->B == j->B && i->H == j->H;
  nk::check(ok, l + ": curve");
}
void nk_harness() {
  int part = nk_choose("part", 4);
  if (part == 0) {
    Drawing<MagnetostaticProp> d;
    MagnetostaticProp a;
    a.J = nk_real("J", -9, 9); a.M = pt("M", -9, 9); a.mu = nk_real("mu", 0.01, 5);
    int ca = nk_choose("curve", 4), diff = nk_choose("difference", 6), cb = ca;
    a.bh_curve = CURVES[ca];
    MagnetostaticProp b = a;
    double e = 0;
    if (diff) { e = nk_real("e", 0.01, 3); if (nk_choose("sign", 2)) e = -e; }
    if (diff == 1) b.J += e;
    if (diff == 2) b.M.x += e;
    if (diff == 3) b.M.y += e;
    if (diff == 4) b.mu += e;
    if (diff == 5) { cb = (ca + 1 + nk_choose("other curve", 3)) % 4; b.bh_curve = CURVES[cb]; }
    Vector p = pt("p", -9, 9), q = pt("q", -9, 9), r = pt("r", -9, 9);
    int back = nk_choose("again", 2);
    d.drawRegion(p, a); d.drawRegion(q, b); d.drawRegion(r, back ? b : a);
    nk::check(d.regions.size() == 3, "one mark per call");
    if (d.regions.size() != 3) return;
    nk::check((d.regions[0].second == d.regions[1].second) == (diff == 0), diff ? "different material, different number" : "same material, same number");
    nk::check(d.regions[2].second == d.regions[back ? 1 : 0].second, "same material again, same number");
    nk::check(d.getRegionId(a) == d.regions[0].second && d.getRegionId(b) == d.regions[1].second, "number of a known material");
    same(*d.getRegionPtrFromId(d.regions[0].second), a, "material of the number"); same(*d.getRegionPtrFromId(d.regions[1].second), b, "material of the number");
    nk::eq(d.regions[0].first.x, p.x, "position of the mark"); nk::eq(d.regions[1].first.y, q.y, "position of the mark"); nk::eq(d.regions[2].first.x, r.x, "position of the mark");
    nk::check((a == b) == (diff == 0), "equality of materials"); nk::check((a != b) == (diff != 0), "inequality of materials");
  } else if (part == 1) {
    Drawing<CurrentDensityProp> d;
    int n = 1 + nk_choose("n", 5);
    std::vector<double> s;
    std::vector<int> cls;
    int classes = 0;
    for (int i = 0; i < n; i++) {
      int k = nk_choose(nk::nm("class", i).c_str(), classes + 1);
      cls.push_back(k);
      if (k == classes) { classes++; s.push_back(nk_real(nk::nm("s", k).c_str(), k * 2, k * 2 + 1)); }
      d.drawRegion(Vector(i, nk_real(nk::nm("y", i).c_str(), -5, 5)), CurrentDensityProp{s[k]});
    }
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < i; j++) nk::check((d.regions[i].second == d.regions[j].second) == (cls[i] == cls[j]), "conductors are numbered by value");
      nk::eq(d.getRegionPtrFromId(d.regions[i].second)->sigma, s[cls[i]], "conductor of the number");
    }
    double e = nk_real("e", 0.01, 3);
    CurrentDensityProp p{s[0]}, q{s[0]}, o{s[0] + e}, u{s[0] - e};
    nk::check(p == q && !(p != q), "equal conductors");
    nk::check(p != o && p != u && u != p && !(p == o) && !(p == u), "different conductors");
    nk::check((int)d.region_map.size() == classes, "one entry per conductor");
    for (int k = 0; k < 3; k++) nk::check(throws([&] { d.getRegionPtrFromId(classes + k * 7); }), "unknown number is rejected");
  } else if (part == 2) {
    // numbers stay valid while other materials are added
    Drawing<Tag> d;
    int n = 2 + nk_choose("n", 9);
    if (n == 10) n = 300;
    std::vector<uint32_t> id;
    for (int i = 0; i < n; i++) { Tag t; t.id = i * 3; d.drawRegion(Vector(i, 0), t); id.push_back(d.getRegionId(t)); }
    for (int i = 0; i < n; i++) { Tag t; t.id = i * 3; nk::check(d.getRegionId(t) == id[i] && d.regions[i].second == id[i] && d.getRegionPtrFromId(id[i])->id == i * 3, "numbers are stable"); }
  } else {
    Drawing<Tag> d;
    nk::check(throws([&] { d.getRegionPtrFromId(0); }), "unknown number is rejected");
    nk::check(throws([&] { d.getRegionPtrFromId(0xffffffffu); }), "unknown number is rejected");
  }
}
