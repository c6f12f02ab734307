// magnets: surface currents where the magnetisation changes
#include "fem.hpp"
#include "magnetostatic/mesh.hpp"
struct Case { std::vector<std::vector<Vector>> figs; Shape S; std::vector<int> mat; std::vector<std::pair<Vector, int>> marks; };     // material of every triangle: 0 air, 1.. magnets
static Case get(int k) {
  std::vector<std::vector<Vector>> box = {{{0, 0}, {6, 0}, {6, 6}, {0, 6}}, {{2, 2}, {4, 2}, {4, 4}, {2, 4}}};
  Shape nest = {{{0, 0}, {6, 0}, {6, 6}, {0, 6}, {2, 2}, {4, 2}, {4, 4}, {2, 4}}, {{0, 1, 4}, {1, 5, 4}, {1, 2, 5}, {2, 6, 5}, {2, 3, 6}, {3, 7, 6}, {3, 0, 7}, {0, 4, 7}, {4, 5, 6}, {4, 6, 7}}};
  std::vector<std::vector<Vector>> two = {{{0, 0}, {2, 0}, {2, 3}, {0, 3}}, {{2, 0}, {5, 0}, {5, 3}, {2, 3}}};
  Shape side = {{{0, 0}, {2, 0}, {2, 3}, {0, 3}, {5, 0}, {5, 3}, {3.5, 1.25}}, {{0, 1, 2}, {0, 2, 3}, {1, 4, 6}, {4, 5, 6}, {5, 2, 6}, {2, 1, 6}}};
  std::vector<std::vector<Vector>> ell = {{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}};
  Shape sl = {{{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}, {4, 4}}, {{0, 1, 3}, {1, 2, 3}, {0, 3, 5}, {5, 3, 4}, {3, 2, 4}, {2, 6, 4}}};
  Topo fan = topo(2), one = topo(0);
  std::vector<int> out8in2 = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1};
  switch (k) {
  case 0: return {{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}, {fan.p, fan.t}, {1, 1, 1, 1}, {{{2, 1}, 1}}};                               // a lone magnet
  case 1: return {box, nest, out8in2, {{{1, 0.5}, 0}, {{3, 2.5}, 1}}};                                                             // in air
  case 2: return {box, nest, {1, 1, 1, 1, 1, 1, 1, 1, 0, 0}, {{{3, 2.5}, 0}, {{1, 0.5}, 1}}};                                      // with a hole
  case 3: return {box, nest, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {{{1, 0.5}, 1}, {{3, 2.5}, 1}}};                                      // both figures of one magnet
  case 4: return {box, nest, {2, 2, 2, 2, 2, 2, 2, 2, 1, 1}, {{{1, 0.5}, 2}, {{3, 2.5}, 1}}};                                      // magnet in a magnet
  case 5: return {two, side, {1, 1, 1, 1, 1, 1}, {{{1, 1}, 1}, {{3, 1}, 1}}};                                                      // neighbours of one material
  case 6: return {two, side, {1, 1, 2, 2, 2, 2}, {{{1, 1}, 1}, {{3, 1}, 2}}};
  case 7: return {two, side, {1, 1, 0, 0, 0, 0}, {{{3, 1}, 0}, {{1, 1}, 1}}};
  case 8: return {ell, sl, {1, 1, 1, 1, 0, 0}, {{{3.5, 3.25}, 0}, {{1, 0.5}, 1}}};
  case 9: return {ell, sl, {0, 0, 0, 0, 1, 1}, {{{3.5, 3.25}, 1}, {{1, 0.5}, 0}}};
  case 10: return {{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}}, {fan.p, fan.t}, {1, 1, 1, 1}, {{{2, 1}, 1}, {{1, 2}, 1}}};                  // marked twice
  case 12: {                                                                                                                      // a figure of many edges in a box of air
    std::vector<Vector> ring, hull = {{-6, -6}, {6, -6}, {6, 6}, {-6, 6}};
    int n = 64;
    for (int i = 0; i < n; i++) { double q = i % (n / 4) * 4.0 / n, x = 4 - 4 * q * q, y = 4 * q * (2 - q); int s = i / (n / 4); ring.push_back(s == 0 ? Vector(x, y) : s == 1 ? Vector(-y, x) : s == 2 ? Vector(-x, -y) : Vector(y, -x)); }
    Case c = {{hull, ring}, {}, {}, {{{5.5, 5.5}, 0}, {{0, 0.5}, 1}}};
    c.S.p = ring; c.S.p.push_back({0, 0});
    for (auto &v : hull) c.S.p.push_back(v);
    for (int i = 0; i < n; i++) { c.S.t.push_back({i, (i + 1) % n, n}); c.mat.push_back(1); }
    for (int i = 0; i < n; i++) { c.S.t.push_back({(i + 1) % n, i, n + 1 + (i / (n / 4) + 2) % 4}); c.mat.push_back(0); }
    for (int s = 0; s < 4; s++) { c.S.t.push_back({s * (n / 4), n + 1 + (s + 1) % 4, n + 1 + (s + 2) % 4}); c.mat.push_back(0); }
    return c;
  }
  default: return {{{{0, 0}, {4, 0}, {1, 3}}}, {one.p, one.t}, {1}, {{{1.5, 1}, 1}}};
  }
}
void nk_harness() {
  int k = nk_choose("case", 13), corners = nk_choose("corners", 3);
  Case C = get(k);
  double sx = nk_real("sx", 0.5, 3), sy = nk_real("sy", 0.5, 3), dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9);
  auto put = [&](Vector v) { return Vector(sx * v.x + dx, sy * v.y + dy); };
  MagnetostaticMesh m;
  for (auto &f : C.figs) { std::vector<Vector> Q; for (auto &p : f) Q.push_back(put(p)); m.drawing.polygons.push_back(nikfemm::Polygon(Q)); }
  double J = nk_real("J", -9, 9);
  MagnetostaticProp prop[3] = {{0, {0, 0}, 1, {}}, {J, {nk_real("M1x", 1, 9), nk_real("M1y", -9, 9)}, 2, {}}, {0, {nk_real("M2x", -9, -1), nk_real("M2y", -9, 9)}, 2, {}}};
  int id[3] = {-1, -1, -1};
  for (auto &mk : C.marks) { m.drawing.drawRegion(put(mk.first), prop[mk.second]); id[mk.second] = m.drawing.regions.back().second; }
  for (auto &p : C.S.p) p = put(p);
  std::vector<int> attr;
  for (size_t t = 0; t < C.S.t.size(); t++) attr.push_back(id[C.mat[t]]);
  // the edges where the magnetisation changes carry M x n (outward), half of it to each end
  std::vector<double> b(C.S.p.size(), 0.0);
  for (size_t t = 0; t < C.S.t.size(); t++) {
    double D = orient(C.S.p[C.S.t[t][0]], C.S.p[C.S.t[t][1]], C.S.p[C.S.t[t][2]]);
    int f = D < 0 ? -1 : 1;
    Vector M = prop[C.mat[t]].M;
    for (int e = 0; e < 3; e++) {
      int i = C.S.t[t][e], j = C.S.t[t][(e + 1) % 3];
      double ex = C.S.p[j].x - C.S.p[i].x, ey = C.S.p[j].y - C.S.p[i].y;      // outward normal times length: (ey, -ex)
      double K = f * (M.x * -ex - M.y * ey) / 2;
      b[i] += K; b[j] += K;
    }
    for (int v : C.S.t[t]) b[v] += f * D * prop[C.mat[t]].J / 6;
    C.S.t[t] = turn(C.S.t[t], (corners * 2 + t) % 6);
  }
  load(m, C.S.p, C.S.t, attr);
  m.computeEpsilon();
  System<NonLinearExpression> sys = m.getFemSystem();
  std::vector<double> mu(C.S.t.size(), 1.0);
  for (size_t i = 0; i < b.size(); i++) nk::eq(sys.b[i].evaluate(mu), b[i], "half of the surface current to each end of the edge", 10);
}
