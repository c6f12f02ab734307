// orientation and point in triangle
#include "msh.hpp"
void nk_harness() {
  int part = nk_choose("part", 5);
  if (part == 0) {
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9), c = pt("c", -9, 9);
    int s = side("turn", orient(a, b, c), 1e-6);
    double e = unit();
    auto o = geomOrientation(sized(e, a), sized(e, b), sized(e, c));
    nk::check(o == (s > 0 ? Orientation::COUNTERCLOCKWISE : Orientation::CLOCKWISE), s > 0 ? "left turn" : "right turn");
  } else if (part == 1) {
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9);
    double t = nk_real("t", -3, 3);
    nk::check(geomOrientation(a, b, along(a, b, t)) == Orientation::COLLINEAR, "points of one line");
    nk::check(geomOrientation(a, along(a, b, t), b) == Orientation::COLLINEAR, "points of one line");
    nk::check(geomOrientation(a, a, b) == Orientation::COLLINEAR, "repeated point");
  } else if (part == 4) {
    // a segment is the unordered pair of its ends
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9), c = pt("c", -9, 9);
    nk_assume((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y), ">=", 1e-4);
    nk_assume((a.x - c.x) * (a.x - c.x) + (a.y - c.y) * (a.y - c.y), ">=", 1e-4);
    nk_assume((c.x - b.x) * (c.x - b.x) + (c.y - b.y) * (c.y - b.y), ">=", 1e-4);
    static const int E[][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 0}, {1, 1}};
    auto e = E[nk_choose("ends", 8)];
    const Vector *q[] = {&a, &b, &c};
    bool same = e[0] + e[1] == 1;
    Segment s(a, b), t(*q[e[0]], *q[e[1]]);
    nk::check((s == t) == same && (t == s) == same, same ? "equal segments" : "different segments");
    nk::check((s != t) == !same, same ? "equal segments" : "different segments");
  } else if (part == 3) {
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9), p = pt("p", -12, 12);
    bool in = ((a.x <= p.x && p.x <= b.x) || (b.x <= p.x && p.x <= a.x)) && ((a.y <= p.y && p.y <= b.y) || (b.y <= p.y && p.y <= a.y));
    double e = unit();
    a = sized(e, a); b = sized(e, b); p = sized(e, p);
    double l = Segment(a, b).length();
    nk::cmp(l, ">=", 0, "length of a segment"); nk::eq(l * l, (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), "length of a segment", 10 * e * e);
    nk::check(Segment::pointInSegmentBB(p, a, b) == in, in ? "inside the segment's box" : "outside the segment's box");
    nk::check(Segment::pointInSegmentBB(p, Segment(a, b)) == in, in ? "inside the segment's box" : "outside the segment's box");
  } else {
    Vector a(nk_choose("off", 2) ? -2.5 : 0, 1), b = pt("b", -8, 8), c = pt("c", -8, 8);
    if (!nk_thorough()) b.y = 1.5;
    side("turn", orient(a, b, c), 1e-2);
    double u = nk_real("u", -3, 3), v = nk_real("v", -3, 3);
    int zone = nk_choose("zone", 4);
    if (zone == 0) { nk_assume(u, ">=", 1e-3); nk_assume(v, ">=", 1e-3); nk_assume(u + v, "<=", 0.999); }
    if (zone == 1) nk_assume(u, "<=", -1e-3);
    if (zone == 2) { nk_assume(u, ">=", 1e-3); nk_assume(v, "<=", -1e-3); }
    if (zone == 3) { nk_assume(u, ">=", 1e-3); nk_assume(v, ">=", 1e-3); nk_assume(u + v, ">=", 1.001); }
    Vector p(a.x + u * (b.x - a.x) + v * (c.x - a.x), a.y + u * (b.y - a.y) + v * (c.y - a.y));
    double e = unit();
    a = sized(e, a); b = sized(e, b); c = sized(e, c); p = sized(e, p);
    int rot = nk_choose("start", 3);
    bool r = rot == 0 ? pointInTriangle(p, a, b, c) : rot == 1 ? pointInTriangle(p, b, c, a) : pointInTriangle(p, c, a, b);
    TMesh m; load(m, {c, a, b}, {{{rot, (rot + 1) % 3, (rot + 2) % 3}}});
    nk::check(m.data.pointInElem(0, p) == (zone == 0), zone == 0 ? "inside the element" : "outside the element");
    nk::check(r == (zone == 0), zone == 0 ? "inside the triangle" : "outside the triangle");
  }
}
