// gradient and curl of nodal fields, element size helpers
#include "msh.hpp"
void nk_harness() {
  int part = nk_choose("part", 4);
  TMesh m;
  if (part == 0) {
    // one free triangle: the field is a general linear one
    Vector P[3] = {pt("a", -9, 9), pt("b", -9, 9), pt("c", -9, 9)};
    int s = side("turn", orient(P[0], P[1], P[2]), 1e-3);
    double f0 = nk_real("f0", -9, 9), fx = nk_real("fx", -9, 9), fy = nk_real("fy", -9, 9);
    load(m, {P[0], P[1], P[2]}, {turn({0, 1, 2}, nk_choose("corners", 6))});
    std::vector<double> z;
    for (auto &p : P) z.push_back(f0 + fx * p.x + fy * p.y);
    auto g = m.computeGrad(z), c = m.computeCurl(z);
    nk::check(g.size() == 1 && c.size() == 1, "one vector per triangle");
    nk::eq(g[0].x, fx, "gradient of a linear field"); nk::eq(g[0].y, fy, "gradient of a linear field");
    nk::eq(c[0].x, fy, "curl of a linear field"); nk::eq(c[0].y, -fx, "curl of a linear field");
    double A2 = orient(P[0], P[1], P[2]);
    nk::eq(m.data.getArea(0), s * A2 / 2, "area of a triangle", 100);
    Elem e = m.data.trianglelist[0];
    nk::eq(m.data.getDoubleOrientedArea(0), orient(P[e[0]], P[e[1]], P[e[2]]), "signed area of a triangle", 100);
    nk::eq(m.data.getOrientedArea(0) * 2, orient(P[e[0]], P[e[1]], P[e[2]]), "signed area of a triangle", 100);
    nk::eq(m.data.getArea(0, 2, 1), s * A2 / 2, "area of a triangle", 100); nk::eq(m.data.getDoubleOrientedArea(0, 2, 1), -A2, "signed area of a triangle", 100);
    Vector b = m.data.getElemBarycenter(0);
    nk::eq(3 * b.x, P[0].x + P[1].x + P[2].x, "center of a triangle", 10); nk::eq(3 * b.y, P[0].y + P[1].y + P[2].y, "center of a triangle", 10);
  } else if (part == 1 || part == 3) {
    // every triangle of a mesh under a similarity, free nodal values
    int wide = part == 3;                  // more than 65536 nodes, a few free values
    Topo T = wide ? grid(262, 262) : topo(nk_choose("mesh", ntopo()));
    double s = wide ? 0.5 : nk_real("s", 0.25, 4); Vector t = wide ? Vector(-70, 3) : pt("t", -9, 9);
    int k = wide ? 0 : nk_choose("corners", 6);
    for (auto &p : T.p) p = Vector(t.x + s * p.x, t.y + s * p.y);
    for (size_t i = 0; i < T.t.size(); i++) T.t[i] = turn(T.t[i], (k + i) % 6);
    load(m, T.p, T.t);
    std::vector<double> z, z0;
    for (size_t i = 0; i < T.p.size(); i++) z.push_back(wide && i % 9973 != 7 ? i * 7 % 11 * 0.5 - 2 : nk_real(nk::nm("z", i).c_str(), -9, 9));
    z0 = z;
    auto g = m.computeGrad(z), c = m.computeCurl(z);
    nk::check(g.size() == T.t.size() && c.size() == T.t.size(), "one vector per triangle");
    for (size_t i = 0; i < T.t.size(); i++) {
      for (int j = 0; j < 3; j++) {
        int u = T.t[i][j], v = T.t[i][(j + 1) % 3];
        Vector e = T.p[v] - T.p[u];
        nk::eq(g[i].x * e.x + g[i].y * e.y, z[v] - z[u], wide ? "gradient in a triangle of a high number" : "gradient explains the values along every edge", 10);
        nk::eq(-c[i].y * e.x + c[i].x * e.y, z[v] - z[u], "curl is the gradient turned by a quarter", 10);
      }
    }
    for (size_t i = 0; i < z.size(); i++) nk::eq(z[i], z0[i], "the field is kept");
  } else {
    // half of the shortest edge
    Topo T = topo(nk_choose("mesh", ntopo()));
    double s = nk_real("s", 0.25, 4);
    Vector t(3, -2);
    double best = 1e300;
    for (auto &q : T.t) for (int j = 0; j < 3; j++) { Vector e = T.p[q[j]] - T.p[q[(j + 1) % 3]]; best = std::min(best, e.x * e.x + e.y * e.y); }
    for (auto &p : T.p) p = Vector(t.x + s * p.x, t.y + s * p.y);
    int free = nk_choose("free corner", 2);
    if (free) {
      // one corner moved: compare with the exact minimum
      Vector d = pt("d", -0.5, 0.5);
      T.p[T.t[0][1]] = T.p[T.t[0][1]] + d;
    }
    load(m, T.p, T.t);
    m.computeEpsilon();
    if (!free) nk::eq(4 * m.epsilon * m.epsilon, best * s * s, "half of the shortest edge", 10);
    else { bool hit = false; for (auto &q : T.t) for (int j = 0; j < 3; j++) { Vector e = T.p[q[j]] - T.p[q[(j + 1) % 3]]; nk::cmp(4 * m.epsilon * m.epsilon, "<=", e.x * e.x + e.y * e.y, "not longer than half of any edge", 10); (void)hit; } }
  }
}
