// mapping of the exterior onto a disc
#include "msh.hpp"
void nk_harness() {
  int part = nk_choose("part", 3);
  TMesh m;
  double R = nk_real("R", 0.5, 9);
  m.radius = R;
  if (part == 0) {
    // points on a ray: d is a unit direction
    static const Vector D[] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}, {-0.28, -0.96}, {0.352, -0.936}};
    int n = nk_choose("direction", 8), zone = nk_choose("zone", 3);
    double r = zone == 0 ? nk_real("r", 0.001, 9) : nk_real("r", 1e-6, 0.2);
    if (zone == 0) nk_assume(r, ">=", R / 100);
    if (zone == 1) { nk_assume(r, "<=", R / 100 * 0.999); }
    if (zone == 2) nk_assume(100 * r, "==", R);
    Vector v = D[n] * r, b(nk_real("bx", -9, 9), nk_real("by", -9, 9));
    load(m, {b, v, b}, {{0, 1, 2}}, {0}, {1, 0, 3});
    m.kelvinTransformCentered();
    Vector w = m.data.pointlist[1];
    double k = zone == 0 ? R * R / r : 100 * R;
    nk::eq(w.x / 1000, D[n].x * k / 1000, zone == 0 ? "mapped point" : zone == 1 ? "capped point" : "point at the cap", 1); nk::eq(w.y / 1000, D[n].y * k / 1000, zone == 0 ? "mapped point" : zone == 1 ? "capped point" : "point at the cap", 1);
    nk::eq(m.data.pointlist[0].x, b.x, "boundary points stay"); nk::eq(m.data.pointlist[2].y, b.y, "boundary points stay");
    nk::check(m.data.numberofpoints == 3 && m.data.pointmarkerlist[1] == 0 && m.data.pointmarkerlist[2] == 3, "marks stay");
  } else if (part == 1) {
    // free points: |v| |w| = R^2, same ray
    int n = 1 + nk_choose("points", 3), at = nk_choose("at", n);
    std::vector<Vector> P;
    for (int i = 0; i < n; i++) P.push_back(i == at ? pt("p", -9, 9) : Vector(1.5 + i, -2));
    nk_assume(P[at].x * P[at].x + P[at].y * P[at].y, ">=", R * R / 9000);
    load(m, P, {{0, 0, 0}});
    m.kelvinTransformCentered();
    for (int i = 0; i < n; i++) {
      Vector v = P[i], w = m.data.pointlist[i];
      nk::eq(v.x * w.y, v.y * w.x, "same ray", 100); nk::cmp(v.x * w.x + v.y * w.y, ">=", 0, "same side", 10);
      nk::eq(v.x * w.x + v.y * w.y, R * R, "distances multiply to the squared radius", 100);
    }
  } else {
    // the center of the disc stands for infinity: it goes as far as the cap
    load(m, {{0, 0}, {R, 0}}, {{0, 0, 1}}, {0}, {0, 1});
    m.kelvinTransformCentered();
    Vector w = m.data.pointlist[0];
    nk::eq((w.x * w.x + w.y * w.y) / 1e4, R * R, "the center goes to the cap", 100);
  }
}
