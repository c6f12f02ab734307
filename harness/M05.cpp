// integrals over the figure around a point
#include "msh.hpp"
struct Case { std::vector<std::vector<Vector>> figs; Topo T; int which; Vector at; };
static Case get(int k) {
  std::vector<Vector> G;
  switch (k) {
  case 0: return {{{{0, 0}, {4, 0}, {4, 3}, {0, 3}}}, topo(1), 0, {1, 1}};
  case 1:      // L in a square: the notch triangle has all corners on the figure
    return {{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}}, {{{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}, {4, 4}}, {{0, 1, 3}, {1, 2, 3}, {0, 3, 5}, {5, 3, 4}, {3, 2, 4}, {2, 6, 4}}}, 1, {1, 0.5}};
  case 2: return {{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}}, {{{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}, {4, 4}}, {{0, 1, 3}, {1, 2, 3}, {0, 3, 5}, {5, 3, 4}, {3, 2, 4}, {2, 6, 4}}}, 0, {3.5, 3.25}};
  case 3:      // box in a box, asked inside
    return {{{{0, 0}, {6, 0}, {6, 6}, {0, 6}}, {{2, 2}, {4, 2}, {4, 4}, {2, 4}}}, {{{0, 0}, {6, 0}, {6, 6}, {0, 6}, {2, 2}, {4, 2}, {4, 4}, {2, 4}}, {{0, 1, 4}, {1, 5, 4}, {1, 2, 5}, {2, 6, 5}, {2, 3, 6}, {3, 7, 6}, {3, 0, 7}, {0, 4, 7}, {4, 5, 6}, {4, 6, 7}}}, 1, {3, 2.5}};
  case 4:      // two figures side by side
    return {{{{0, 0}, {2, 0}, {2, 3}, {0, 3}}, {{2, 0}, {5, 0}, {5, 3}, {2, 3}}}, {{{0, 0}, {2, 0}, {2, 3}, {0, 3}, {5, 0}, {5, 3}, {3.5, 1.25}}, {{0, 1, 2}, {0, 2, 3}, {1, 4, 6}, {4, 5, 6}, {5, 2, 6}, {2, 1, 6}}}, 1, {3, 1}};
  case 5:      // U in a box, asked in the U
    return {{{{0, 0}, {6, 0}, {6, 4}, {0, 4}}, {{0, 0}, {6, 0}, {6, 4}, {4, 4}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}}, {{{0, 0}, {6, 0}, {6, 4}, {4, 4}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}, {{0, 5, 7}, {5, 6, 7}, {0, 1, 5}, {1, 4, 5}, {1, 2, 4}, {2, 3, 4}, {5, 4, 3}, {5, 3, 6}}}, 1, {1, 3}};
  default:     // arrow head in a triangle
    return {{{{0, 0}, {8, 0}, {4, 8}}, {{0, 0}, {4, 2}, {8, 0}, {4, 8}}}, {{{0, 0}, {4, 2}, {8, 0}, {4, 8}}, {{0, 1, 3}, {1, 2, 3}, {0, 2, 1}}}, 1, {4, 4}};
  }
}
void nk_harness() {
  int k = nk_choose("case", 7), mirror = nk_choose("mirror", 2), what = nk_choose("quantity", 3), corners = nk_choose("corners", 3);
  Case C = get(k);
  double sx = nk_real("sx", 0.5, 3), sy = nk_real("sy", 0.5, 3);
  if (mirror) sx = -sx;
  auto put = [&](Vector v) { return Vector(sx * v.x - 3, sy * v.y + 2); };
  TMesh m;
  std::vector<nikfemm::Polygon> F;
  for (auto &f : C.figs) { std::vector<Vector> Q; for (auto &p : f) Q.push_back(put(p)); F.push_back(nikfemm::Polygon(Q)); m.drawing.polygons.push_back(F.back()); }
  for (auto &p : C.T.p) p = put(p);
  for (size_t i = 0; i < C.T.t.size(); i++) C.T.t[i] = turn(C.T.t[i], (corners * 2 + i) % 6);
  load(m, C.T.p, C.T.t);
  Vector c = pt("center", -9, 9), ask = put(C.at) + c;
  m.center = c;
  m.depth = nk_real("depth", 0.1, 5);
  double rho = nk_real("density", 0.1, 9);
  // exact polygon integrals
  double A = 0, Sx = 0, Sy = 0, I = 0;
  const auto &Q = C.figs[C.which];
  for (size_t i = 0; i < Q.size(); i++) {      // in the unscaled figure: concrete
    Vector a = Q[i], b = Q[(i + 1) % Q.size()]; double x = a.x * b.y - a.y * b.x;
    A += x / 2; Sx += x * (a.x + b.x) / 6; Sy += x * (a.y + b.y) / 6;
  }
  double Ixx = 0, Iyy = 0;
  for (size_t i = 0; i < Q.size(); i++) { Vector a = Q[i], b = Q[(i + 1) % Q.size()]; double x = a.x * b.y - a.y * b.x; Ixx += x * (a.x * a.x + a.x * b.x + b.x * b.x) / 12; Iyy += x * (a.y * a.y + a.y * b.y + b.y * b.y) / 12; }
  if (A < 0) { A = -A; Sx = -Sx; Sy = -Sy; Ixx = -Ixx; Iyy = -Iyy; }
  double J = (mirror ? -sx : sx) * sy;
  if (what == 0) {
    nk::eq(m.computeAreaIntegral(ask), A * J, "area", 100); nk::eq(m.computeMass(ask, rho), A * J * m.depth * rho, "mass", 1000);
  } else if (what == 1) {
    Vector b = m.computeBarycenter(ask);
    nk::eq(b.x, sx * (Sx / A) - 3 + c.x, "center of mass", 10); nk::eq(b.y, sy * (Sy / A) + 2 + c.y, "center of mass", 10);
  } else {
    Vector q = pt("about", -9, 9);
    double ux = -3 + c.x - q.x, uy = 2 + c.y - q.y;        // integral of (sx x + ux)^2 + (sy y + uy)^2
    I = J * (sx * sx * Ixx + 2 * sx * ux * Sx + ux * ux * A + sy * sy * Iyy + 2 * sy * uy * Sy + uy * uy * A);
    nk::eq(m.computeInertiaMoment(ask, q, rho), I * m.depth * rho, "moment of inertia", 1e4);
  }
}
