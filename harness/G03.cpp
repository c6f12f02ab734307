// segment intersection: closed segments with distinct end points
#include "geo.hpp"
// the verdict must not depend on the order of the segments or of their end points
static void verdict(const Vector &a, const Vector &b, const Vector &c, const Vector &d, bool expect, const char *l) {
  int how = nk_choose("order", 8);
  double k = unit();
  Vector p = sized(k, a), q = sized(k, b), r = sized(k, c), s = sized(k, d);
  if (how & 1) std::swap(p, q);
  if (how & 2) std::swap(r, s);
  bool x = how & 4 ? Segment::segmentsIntersect(r, s, p, q) : Segment::segmentsIntersect(p, q, r, s);
  nk::check(x == expect, l);
}
void nk_harness() {
  int fam = nk_choose("family", 6);
  Vector a(0, 0), b;
  // the first segment: axis-parallel, diagonal or general, anchored at the origin or shifted
  int dir = nk_choose("direction", 5);
  if (dir == 0) b = Vector(4, 0); else if (dir == 1) b = Vector(0, 4); else if (dir == 2) b = Vector(3, 2); else if (dir == 3) b = Vector(-2, 5); else b = Vector(nk_real("bx", 0.5, 4), nk_real("by", -4, 4));
  if (nk_thorough() ? nk_choose("shift", 2) : dir >= 2) { Vector o(-7, 2.5); a = a + o; b = b + o; }
  if (fam == 0) {                                   // general position
    // both end points of the second segment in the frame of the first: position along it and height over it
    double dx = b.x - a.x, dy = b.y - a.y;
    double t = nk_real("t", -3, 4), u = nk_real("u", -3, 4), g = nk_choose("height", 2) ? 0.5 : 2.0, h = nk_real("h", 0.0625, 4);
    int opp = nk_choose("opposite", 2);
    if (nk_choose("below", 2)) { g = -g; h = -h; }
    if (opp) h = -h;
    Vector c(a.x + t * dx - g * dy, a.y + t * dy + g * dx), d(a.x + u * dx - h * dy, a.y + u * dy + h * dx);
    double oa = t * h - u * g, ob = (t - 1) * h - (u - 1) * g;      // sides of the first segment's end points, up to a common factor
    int sa = side("a", oa, 1e-3), sb = side("b", ob, 1e-3);
    if (!opp) { verdict(a, b, c, d, false, "both end points on one side"); return; }
    verdict(a, b, c, d, sa != sb, "end points on both sides");
  } else if (fam == 1) {                            // an end point inside the other segment
    double t = nk_real("t", 0.0625, 0.9375);
    Vector c = along(a, b, t), d = pt("d", -8, 8); d = d + a;
    side("d", orient(a, b, d), 1e-3);
    verdict(a, b, c, d, true, "touching in the interior");
  } else if (fam == 2) {                            // a common end point
    Vector c = nk_choose("which", 2) ? a : b, d = pt("d", -8, 8); d = d + a;
    side("d", orient(a, b, d), 1e-3);
    verdict(a, b, c, d, true, "common end point");
  } else if (fam == 3) {                            // an end point on the other's line, outside of it
    double t = nk_real("t", 1.0625, 4);
    if (nk_choose("before", 2)) t = 1 - t;
    Vector c = along(a, b, t), d = pt("d", -8, 8); d = d + a;
    side("d", orient(a, b, d), 1e-3);
    verdict(a, b, c, d, false, "end point on the prolongation");
  } else if (fam == 4) {                            // collinear, overlapping or nested
    double t = nk_real("t", -3, 1), u = nk_real("u", 0, 4);
    nk_assume(u - t, ">=", 0.0625);
    verdict(a, b, along(a, b, t), along(a, b, u), true, "collinear and overlapping");
  } else {                                          // collinear and disjoint
    double t = nk_real("t", 1.0625, 4), u = nk_real("u", 0.0625, 2);
    if (nk_choose("before", 2)) verdict(a, b, along(a, b, 1 - t), along(a, b, 1 - t - u), false, "collinear and disjoint");
    else verdict(a, b, along(a, b, t), along(a, b, t + u), false, "collinear and disjoint");
  }
}
