// shared pieces for the drawing harnesses
#pragma once
#include "geo.hpp"
#include <stdexcept>
#include "drawing/drawing.hpp"
#include "magnetostatic/properties.hpp"
#include "current_density/properties.hpp"
struct Tag {                                     // a property that is only an identity
  int id = -1;
  bool operator==(const Tag &o) const { return id == o.id; }
  bool operator!=(const Tag &o) const { return id != o.id; }
};
typedef Drawing<Tag> Draw;
inline int has(const std::vector<Vector> &P, const Vector &p) {       // index of p among the points, exactly
  for (size_t i = 0; i < P.size(); i++) if (P[i].x == p.x && P[i].y == p.y) return i;
  return -1;
}
// the segments are exactly the edges of the closed loops (as unordered pairs of positions)
inline int index_of(const Draw &d, const Vector &p) {
  for (size_t i = 0; i < d.points.size(); i++) { double dx = d.points[i].x - p.x, dy = d.points[i].y - p.y; if (dx < 1e-7 && dx > -1e-7 && dy < 1e-7 && dy > -1e-7) return i; }
  return -1;
}
inline bool has_segment(const Draw &d, int a, int b) {
  for (auto &s : d.segments) if (((int)s.p1 == a && (int)s.p2 == b) || ((int)s.p1 == b && (int)s.p2 == a)) return true;
  return false;
}
inline void loop(const Draw &d, const std::vector<Vector> &P, const std::string &l) {
  int n = P.size();
  bool ok = true;
  std::vector<int> id;
  for (auto &p : P) { id.push_back(index_of(d, p)); ok = ok && id.back() >= 0; }
  nk::check(ok, l + ": every corner is a point of the drawing");
  if (!ok) return;
  for (int i = 0; i < n; i++) ok = ok && has_segment(d, id[i], id[(i + 1) % n]);
  nk::check(ok, l + ": every edge is a segment");
}
inline void valid(const Draw &d, const std::string &l) {
  bool ok = true;
  for (auto &s : d.segments) ok = ok && s.p1 < d.points.size() && s.p2 < d.points.size() && s.p1 != s.p2;
  for (size_t i = 0; i < d.segments.size(); i++) for (size_t j = 0; j < i; j++) ok = ok && d.segments[i] != d.segments[j];
  nk::check(ok, l + ": segments name two different points, once");
}
inline void polyeq(const nikfemm::Polygon &p, const std::vector<Vector> &P, const std::string &l) {
  nk::check(p.points.size() == P.size(), l + ": recorded polygon size");
  if (p.points.size() != P.size()) return;
  for (size_t i = 0; i < P.size(); i++) { nk::eq(p.points[i].x, P[i].x, l + ": recorded polygon"); nk::eq(p.points[i].y, P[i].y, l + ": recorded polygon"); }
}
template <class F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
// sign of v, kept away from zero by m
inline int sgn(double v, double m) { if (v >= m) return 1; if (v <= -m) return -1; nk_drop(); return 0; }
