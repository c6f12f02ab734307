// plane-vector operations
#include "geo.hpp"
void nk_harness() {
  int part = nk_choose("part", 6);
  if (part == 0) {
    Vector a = pt("a", -50, 50), b = pt("b", -50, 50);
    double k = nk_real("k", -8, 8);
    Vector s = a + b, d = a - b, m = a * k, n = -a;
    nk::eq(s.x, a.x + b.x, "sum"); nk::eq(s.y, a.y + b.y, "sum");
    nk::eq(d.x, a.x - b.x, "difference"); nk::eq(d.y, a.y - b.y, "difference");
    nk::eq(m.x, k * a.x, "scaled"); nk::eq(m.y, k * a.y, "scaled");
    nk::eq(n.x, -a.x, "negated"); nk::eq(n.y, -a.y, "negated");
    nk::eq(a * b, a.x * b.x + a.y * b.y, "dot product");
    nk::eq(a ^ b, a.x * b.y - b.x * a.y, "cross product");
    nk::eq(a.normSquared(), a.x * a.x + a.y * a.y, "squared norm");
    double r = a.norm();
    nk::eq(r * r, a.x * a.x + a.y * a.y, "norm", 100); nk::cmp(r, ">=", 0, "norm is not negative");
    Vector p = a.normal();
    nk::eq(p * a, 0, "normal is orthogonal"); nk::eq(a ^ p, a.x * a.x + a.y * a.y, "normal keeps the length and turns left");
    double q = Vector::distanceSquared(a, b), w = Vector::distance(a, b);
    double e = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y);
    nk::eq(q, e, "squared distance"); nk::eq(w * w, e, "distance", 100); nk::cmp(w, ">=", 0, "distance is not negative");
    Vector l = Vector::lerp(a, b, k), mp = Vector::midPoint(a, b);
    nk::eq(l.x, (1 - k) * a.x + k * b.x, "interpolation", 100); nk::eq(l.y, (1 - k) * a.y + k * b.y, "interpolation", 100);
    nk::eq(2 * mp.x, a.x + b.x, "mid point"); nk::eq(2 * mp.y, a.y + b.y, "mid point");
    Vector c = a; c += b; nk::eq(c.x, a.x + b.x, "in-place sum"); nk::eq(c.y, a.y + b.y, "in-place sum");
    c = a; c -= b; nk::eq(c.x, a.x - b.x, "in-place difference"); nk::eq(c.y, a.y - b.y, "in-place difference");
    c = a; c *= k; nk::eq(c.x, a.x * k, "in-place scaling"); nk::eq(c.y, a.y * k, "in-place scaling");
    c = a; c.translate(b); nk::eq(c.x, a.x + b.x, "translation"); nk::eq(c.y, a.y + b.y, "translation");
    Vector z; nk::eq(z.x, 0, "default vector is zero"); nk::eq(z.y, 0, "default vector is zero");
  } else if (part == 1) {
    Vector a = pt("a", -50, 50);
    double k = nk_real("k", 0.125, 8); if (nk_choose("neg", 2)) k = -k;
    Vector v = a / k; nk::eq(v.x * k, a.x, "quotient", 50); nk::eq(v.y * k, a.y, "quotient", 50);
    Vector c = a; c /= k; nk::eq(c.x * k, a.x, "in-place quotient", 50); nk::eq(c.y * k, a.y, "in-place quotient", 50);
    if (nk_choose("zero", 2)) { Vector z(0, 0); Vector u = z.normalize(); nk::eq(u.x, 0, "normalised zero vector"); nk::eq(u.y, 0, "normalised zero vector"); return; }
    nk_assume(a.x * a.x + a.y * a.y, ">=", 1e-4);
    Vector u = a; Vector w = u.normalize();
    nk::eq(u.x * u.x + u.y * u.y, 1, "normalised length"); nk::eq(u.x * a.y - u.y * a.x, 0, "normalised direction"); nk::cmp(u.x * a.x + u.y * a.y, ">", 0, "normalised direction");
    nk::eq(w.x, u.x, "value of normalisation"); nk::eq(w.y, u.y, "value of normalisation");
  } else if (part == 2) {
    Vector a = pt("a", -50, 50), b = pt("b", -50, 50), c = pt("c", -50, 50), t = pt("t", -9, 9);
    double o = Vector::doubleOrientedArea(a, b, c), e = orient(a, b, c);
    nk::eq(o, e, "double oriented area", 100);
    nk::eq(2 * Vector::orientedArea(a, b, c), e, "oriented area", 100);
    nk::eq(Vector::doubleOrientedArea(b, c, a), o, "cyclic order keeps the area", 100);
    nk::eq(Vector::doubleOrientedArea(b, a, c), -o, "swap negates the area", 100);
    nk::eq(Vector::doubleOrientedArea(a + t, b + t, c + t), o, "area does not depend on the origin", 100);
    double f = Vector::area(a, b, c);
    nk::cmp(f, ">=", 0, "area is not negative"); nk::eq(4 * f * f, e * e, "area", 1e4);
  } else if (part == 3) {
    Vector a = pt("a", -50, 50), c = pt("c", -50, 50);
    double g = nk_real("angle", -7, 7), cs = cos(g), sn = sin(g);
    Vector r = a.rotate(g), q = a.rotate(g, c);
    nk::eq(r.x, cs * a.x - sn * a.y, "rotation about the origin", 50); nk::eq(r.y, sn * a.x + cs * a.y, "rotation about the origin", 50);
    nk::eq(q.x - c.x, cs * (a.x - c.x) - sn * (a.y - c.y), "rotation about a point", 50); nk::eq(q.y - c.y, sn * (a.x - c.x) + cs * (a.y - c.y), "rotation about a point", 50);
    nk::eq((q - c) * (q - c), (a - c) * (a - c), "rotation keeps distances", 1e3);
  } else if (part == 4) {
    // equality is "closer than 1e-9"
    Vector a = pt("a", -8, 8);
    double dx = nk_real("dx", -4, 4), dy = nk_real("dy", -4, 4);
    int far = nk_choose("far", 2);
    double d2 = dx * dx + dy * dy;
    if (far) nk_assume(d2, ">=", 2.0); else nk_assume(d2, "<=", 0.5);
    double s = far && nk_choose("large", 2) ? 1.0 : 1e-9;
    Vector b(a.x + s * dx, a.y + s * dy);
    nk::check((a == b) == !far, "equality of points"); nk::check((a != b) == (bool)far, "inequality of points"); nk::check((b == a) == !far, "equality is symmetric");
  } else {
    Vector b = pt("b", -8, 8), u = pt("u", -8, 8), v = pt("v", -8, 8);
    nk_assume(u.x * u.x + u.y * u.y, ">=", 1e-3); nk_assume(v.x * v.x + v.y * v.y, ">=", 1e-3);
    double x = u.x * v.y - u.y * v.x, d = u.x * v.x + u.y * v.y;
    side("turn", x, 1e-3);
    double g = Vector::orientedAngle(b + u, b, b + v);
    nk::eq(sin(g) * d, cos(g) * x, "oriented angle", 64);
    nk::cmp(cos(g) * d + sin(g) * x, ">", 0, "oriented angle quadrant");
    double h = Vector::absoluteAngle(b + u, b, b + v);
    nk::eq(cos(h) * sqrt((u * u) * (v * v)), d, "absolute angle", 64); nk::cmp(h, ">=", 0, "absolute angle is not negative");
  }
}
