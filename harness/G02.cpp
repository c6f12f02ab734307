// distance from a point to a segment
#include "geo.hpp"
void nk_harness() {
  int part = nk_choose("part", 3), ov = nk_choose("overload", 2);
  auto D = [&](Vector p, Vector a, Vector b) { return ov ? Segment::pointSegmentDistance(p, Segment(a, b)) : Segment::pointSegmentDistance(p, a, b); };
  if (part == 0) {
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9), p = pt("p", -9, 9);
    double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy, t = (p.x - a.x) * dx + (p.y - a.y) * dy;
    nk_assume(l2, ">=", 1e-3);
    double da2 = (p.x - a.x) * (p.x - a.x) + (p.y - a.y) * (p.y - a.y), db2 = (p.x - b.x) * (p.x - b.x) + (p.y - b.y) * (p.y - b.y);
    int zone = nk_choose("zone", 3);
    if (zone == 0) nk_assume(t, "<=", 0);
    else if (zone == 1) nk_assume(t, ">=", l2);
    else { nk_assume(t, ">=", 0); nk_assume(t, "<=", l2); }
    double d = D(p, a, b);
    nk::cmp(d, ">=", 0, "distance is not negative");
    if (zone == 0) nk::eq(d * d, da2, "before the start", 100);
    else if (zone == 1) nk::eq(d * d, db2, "past the end", 100);
    else { double c = orient(a, b, p); nk::eq(d * d * l2, c * c, "beside the segment", 1e4); }
    double d2 = D(p, b, a);
    nk::eq(d2 * d2, d * d, "direction of the segment does not matter", 100);
  } else if (part == 1) {
    // points of the segment are at distance zero, and no point of it is closer
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9);
    double u = nk_real("u", 0, 1);
    nk_assume((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), ">=", 1e-3);
    nk::eq(D(along(a, b, u), a, b), 0, "points of the segment");
    nk::eq(D(a, a, b), 0, "end point"); nk::eq(D(b, a, b), 0, "end point");
  } else {
    // a segment of length zero is its point
    Vector a = pt("a", -9, 9), p = pt("p", -9, 9);
    if (nk_choose("same", 2)) p = a;
    double d = D(p, a, a);
    nk::eq(d * d, (p.x - a.x) * (p.x - a.x) + (p.y - a.y) * (p.y - a.y), "segment of length zero", 100);
    nk::cmp(d, ">=", 0, "segment of length zero: not negative");
  }
}
