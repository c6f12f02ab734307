// refinement around magnets; point in element, box of a segment
#include "fem.hpp"
#include "magnetostatic/mesh.hpp"
static double len(const Vector &a, const Vector &b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
struct Fig { std::vector<Vector> p; int mat; Vector mark; };      // mat: index of the material, magnets are 1 and 2
void nk_harness() {
  static const std::vector<Vector> SQ = {{0, 0}, {4, 0}, {4, 4}, {0, 4}}, TRI = {{1, 1}, {4, 1}, {1, 5}}, EL = {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 6}, {0, 6}}, BOX = {{-10, -10}, {16, -10}, {16, 16}, {-10, 16}}, IN = {{1, 1}, {3, 1}, {3, 3}, {1, 3}}, FAR = {{9, 0}, {12, 0}, {12, 5}, {9, 5}};
  std::vector<Fig> D;
  int k = nk_choose("drawing", 8);
  switch (k) {
  case 0: D = {{SQ, 1, {2, 1.75}}}; break;                                                       // one magnet
  case 1: D = {{BOX, 0, {-9, -8.5}}, {TRI, 1, {1.75, 2}}}; break;                                // in air
  case 2: D = {{BOX, 0, {-9, -8.5}}, {EL, 1, {1, 0.75}}, {FAR, 0, {10, 2}}}; break;              // next to something else
  case 3: D = {{BOX, 0, {-9, -8.5}}, {SQ, 1, {2, 1.75}}, {FAR, 1, {10, 2}}}; break;              // two of one material
  case 4: D = {{BOX, 0, {-9, -8.5}}, {SQ, 1, {2, 1.75}}, {FAR, 2, {10, 2}}}; break;              // two materials
  case 5: D = {{SQ, 1, {0.5, 0.25}}, {IN, 0, {2, 1.75}}}; break;                                 // with a hole
  case 6: D = {{BOX, 0, {-9, -8.5}}, {SQ, 0, {0.5, 0.25}}, {IN, 2, {2, 1.75}}}; break;           // inside a body
  default: D = {{BOX, 0, {-9, -8.5}}, {SQ, 0, {2, 1.75}}}; break;                                // none
  }
  int cw = nk_choose("clockwise", 2);
  Vector t = pt("t", -40, 40);
  double m = nk_real("M", 0.125, 9);
  Vector dir = nk_choose("direction", 2) ? Vector(0, -1) : Vector(1, 0);
  MagnetostaticMesh M;
  auto at = [&](const Vector &v) { return Vector(v.x + t.x, v.y + t.y); };
  std::vector<std::vector<Vector>> magnets, all;
  for (auto &f : D) {
    std::vector<Vector> q = f.p, r;
    if (cw) std::reverse(q.begin(), q.end());
    for (auto &v : q) r.push_back(at(v));
    M.drawing.drawPolygon(r);
    all.push_back(q);
    Vector mv = f.mat == 0 ? Vector(0, 0) : f.mat == 1 ? Vector(dir.x * m, dir.y * m) : Vector(dir.y * m, dir.x * m);
    M.drawing.drawRegion(at(f.mark), {0, mv, magnetostatic_materials::air});
    if (f.mat) magnets.push_back(q);
  }
  auto before = M.drawing.points;
  size_t segs = M.drawing.segments.size(), marks = M.drawing.regions.size();
  double eps = 1e300;                     // smallest distance between a corner and an edge it is not on
  for (auto &A : all) for (auto &B : all) for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) {
    if (&A == &B && (j == i || (j + 1) % B.size() == i)) continue;
    eps = std::min(eps, std::sqrt(edge_dist2(B[j], B[(j + 1) % B.size()], A[i])));
  }
  double h = eps / 10;
  M.refineMeshAroundMagnets();
  auto &P = M.drawing.points;
  bool same = P.size() >= before.size() && M.drawing.segments.size() == segs && M.drawing.regions.size() == marks && M.drawing.polygons.size() == D.size();
  nk::check(same, "nothing but points is added");
  if (!same) return;
  std::vector<Vector> N;
  for (size_t i = 0; i < P.size(); i++) {
    if (i < before.size()) { nk::eq(P[i].x, before[i].x, "existing points stay"); nk::eq(P[i].y, before[i].y, "existing points stay"); }
    else N.push_back(Vector(P[i].x - t.x, P[i].y - t.y));
  }
  if (magnets.empty()) { nk::check(N.empty(), "no magnet, no points"); return; }
  bool inside = true, spaced = true, near = true;
  std::vector<Vector> C;
  for (auto &A : all) for (auto &c : A) C.push_back(c);
  for (size_t i = 0; i < N.size(); i++) {
    bool in = false, on = false;
    for (auto &A : magnets) {
      in = in || locate(A, N[i]) > 0;
      for (size_t j = 0; j < A.size(); j++) { double d = std::sqrt(edge_dist2(A[j], A[(j + 1) % A.size()], N[i])); on = on || (d > 1e-6 * h && d < 3 * h); }
    }
    inside = inside && in; near = near && on;
    for (size_t j = 0; j < i; j++) spaced = spaced && len(N[i], N[j]) > h * 0.999;
    for (auto &c : C) spaced = spaced && len(N[i], c) > h * 0.999;
  }
  nk::check(inside, "refining points are inside the magnets");
  nk::check(near, "refining points are close to the magnets' edges");
  nk::check(spaced, "refining points keep apart from each other and from corners");
  bool cover = true;
  for (auto &A : magnets) for (size_t j = 0; j < A.size(); j++) {
    Vector a = A[j], b = A[(j + 1) % A.size()];
    double L = len(a, b);
    for (double s = 3 * h; s < L - 3 * h; s += h / 2) {
      Vector e(a.x + (b.x - a.x) * s / L, a.y + (b.y - a.y) * s / L);
      bool hit = false;
      for (auto &n : N) hit = hit || len(n, e) < 3 * h;
      cover = cover && hit;
    }
  }
  nk::check(cover, "refining points follow every edge of every magnet");
}
