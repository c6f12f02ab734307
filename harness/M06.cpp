// the innermost figure around a point
#include "msh.hpp"
void nk_harness() {
  typedef std::vector<Vector> Fig;
  auto box = [](double a, double b, double c, double d) { return Fig{{a, b}, {c, b}, {c, d}, {a, d}}; };
  std::vector<std::vector<Fig>> S = {
      {box(0, 0, 8, 6)},
      {box(0, 0, 8, 6), box(2, 2, 5, 4)},
      {box(0, 0, 8, 6), box(1, 1, 3, 5), box(4, 1, 7, 5)},
      {box(0, 0, 8, 6), box(1, 1, 7, 5), box(2, 2, 6, 4), box(3, 2.5, 4, 3.5)},
      {box(0, 0, 8, 6), {{1, 1}, {7, 1}, {7, 5}, {5, 5}, {5, 2}, {3, 2}, {3, 5}, {1, 5}}, box(3.5, 2.5, 4.5, 4)},      // U with a box in its opening
      {box(0, 0, 8, 6), box(0, 0, 4, 6), box(1, 0, 3, 2)},                                                              // shared edges
      {{{0, 0}, {9, 0}, {4, 9}}, {{2, 1}, {6, 1}, {4, 6}}, {{3, 1.5}, {5, 1.5}, {4, 4}}},
  };
  std::vector<Fig> deep;
  for (int i = 0; i < 14; i++) deep.push_back(box(i * 0.25, i * 0.125, 8 - i * 0.25, 6 - i * 0.125));
  S.push_back(deep);
  int k = nk_choose("drawing", S.size()), n = S[k].size(), ord = nk_choose("order", 4);
  std::vector<int> o(n);
  for (int i = 0; i < n; i++) o[i] = ord == 1 ? n - 1 - i : ord == 2 ? (i + 1) % n : i;
  if (ord == 3) std::swap(o[0], o[n / 2]);
  TMesh m;
  for (int i : o) m.drawing.polygons.push_back(nikfemm::Polygon(S[k][i]));
  Vector p = k + 1 < (int)S.size() ? pt("p", -2, 10) : Vector(nk_real("p", -2, 10), 3.0625), c = nk_choose("center", 2) ? Vector(17, -8.5) : Vector(0, 0);
  m.center = c;
  int best = -1; double area = 1e300;
  for (int i = 0; i < n; i++) {
    int w = locate(S[k][i], p);
    if (w == 0) nk_drop();
    double a = 0;
    for (size_t j = 0; j < S[k][i].size(); j++) { Vector u = S[k][i][j], v = S[k][i][(j + 1) % S[k][i].size()]; a += u.x * v.y - u.y * v.x; }
    if (w > 0 && a < area) { area = a; best = i; }
  }
  nikfemm::Polygon r;
  bool t = throws([&] { r = m.getInnermostPolygon(p + c); });
  if (best < 0) nk::check(t, "point outside every figure is rejected");
  else nk::check(!t && r == nikfemm::Polygon(S[k][best]), "innermost figure");
}
