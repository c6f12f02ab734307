// joining the exterior disc to the mesh
#include "msh.hpp"
static std::vector<Vector> KP; static std::vector<int> KM; static std::vector<Tri> KT; static std::vector<Vector> ASKED; static int CALLS;
void triangulate(char *, triangulateio *in, triangulateio *out, triangulateio *) {
  CALLS++;
  for (int i = 0; i < in->numberofpoints; i++) ASKED.push_back(Vector(in->pointlist[2 * i], in->pointlist[2 * i + 1]));
  out->numberofpoints = KP.size(); out->pointlist = (double *)malloc(16 * KP.size()); out->pointmarkerlist = (int *)malloc(4 * KP.size());
  for (size_t i = 0; i < KP.size(); i++) { out->pointlist[2 * i] = KP[i].x; out->pointlist[2 * i + 1] = KP[i].y; out->pointmarkerlist[i] = KM[i]; }
  out->numberoftriangles = KT.size(); out->numberofcorners = 3; out->numberoftriangleattributes = 1; out->trianglelist = (int *)malloc(12 * KT.size()); out->triangleattributelist = (double *)malloc(8 * KT.size());
  for (size_t i = 0; i < KT.size(); i++) { for (int j = 0; j < 3; j++) out->trianglelist[3 * i + j] = KT[i][j]; out->triangleattributelist[i] = 0; }
}
void nk_harness() {
  KP.clear(); KM.clear(); KT.clear(); ASKED.clear(); CALLS = 0;
  TMesh m;
  double R = nk_real("R", 0.5, 9);
  int nn = nk_thorough() ? 6 : 3, n = 4 + nk_choose("boundary points", nn + 1), large = n == 4 + nn, perm = nk_choose("order", 3), inner = 1 + nk_choose("inner points", 2), split = nk_choose("split boundary edge", 3);
  if (large) n = nk_thorough() ? 300 : 130;
  m.radius = R; m.default_prop.id = 99;
  Draw c; c.drawCircle(Circle(Vector(0, 0), R), n);
  // this mesh: the rim in another order, a center fan; the rim may be split by an own point
  std::vector<Vector> P; std::vector<int> M; std::vector<Tri> T; std::vector<int> A;
  std::vector<int> at(n);
  P.push_back(Vector(nk_real("cx", -0.1, 0.1), 0.05)); M.push_back(0);
  for (int i = 0; i < n; i++) { int k = perm == 0 ? i : perm == 1 ? n - 1 - i : (i + n / 2) % n; at[k] = P.size(); P.push_back(c.points[k]); M.push_back(1); if (i == 1) { P.push_back(Vector(0.1, 0.1 + i)); M.push_back(0); } }
  if (split == 2) { P.push_back(along(c.points[0], c.points[1], 0.5)); M.push_back(1); }
  for (int i = 0; i < n; i++) { T.push_back({0, at[i], at[(i + 1) % n]}); A.push_back(i % 2); }
  int known = nk_choose("surrounding material used", large ? 1 : 4), nt = 0;         // not at all, first, between, last
  for (int i = 0; i < 3; i++) { Tag t; t.id = i == known - 1 ? 99 : nt++; if (nt <= 2) m.drawing.drawRegion(Vector(0.3 * i, i), t); }
  load(m, P, T, A, M);
  // the exterior disc: rim, inner points, optionally an own rim point
  for (auto &p : c.points) { KP.push_back(p); KM.push_back(1); }
  if (split == 1) { KP.push_back(along(c.points[0], c.points[1], 0.5)); KM.push_back(1); }
  int hub = KP.size();
  for (int i = 0; i < inner; i++) { KP.push_back(i ? Vector(R / 4, R / 2) : Vector(nk_real("kx", -0.3, 0.3), 0.25)); KM.push_back(0); }
  for (int i = 0; i < n; i++) {
    if (i == 0 && split == 1) { KT.push_back({n, 0, hub}); KT.push_back({1, n, hub}); }
    else KT.push_back({(i + 1) % n, i, inner == 2 && i == 1 ? hub + 1 : hub});
  }
  if (inner == 2) { KT.push_back({1, hub + 1, hub}); KT.push_back({hub + 1, 2, hub}); }
  size_t N = P.size(), NT = T.size();
  int rm = m.drawing.region_map.size();
  m.addKelvinBoundaryConditions(n);
  nk::check(CALLS == 1 && (int)ASKED.size() == n, "the exterior disc has the rim's points");
  for (int i = 0; i < n && i < (int)ASKED.size(); i++) { nk::eq(ASKED[i].x, c.points[i].x, "the exterior disc has the rim's points"); nk::eq(ASKED[i].y, c.points[i].y, "the exterior disc has the rim's points"); }
  auto &d = m.data;
  nk::check((size_t)d.numberofpoints == N + inner + (split == 1), "number of points");
  nk::check((size_t)d.numberoftriangles == NT + KT.size(), "number of triangles");
  for (size_t i = 0; i < N; i++) { nk::eq(d.pointlist[i].x, P[i].x, "own points stay"); nk::eq(d.pointlist[i].y, P[i].y, "own points stay"); }
  bool ok = true;
  for (size_t i = 0; i < NT; i++) { for (int j = 0; j < 3; j++) ok = ok && d.trianglelist[i][j] == T[i][j]; ok = ok && d.triangleattributelist[i] == A[i]; }
  nk::check(ok, "own triangles stay");
  bool valid = true, shared = true, mat = true;
  for (size_t i = 0; i < KT.size(); i++) {
    for (int j = 0; j < 3; j++) {
      int v = d.trianglelist[NT + i][j], k = KT[i][j];
      if (v < 0 || v >= d.numberofpoints) { valid = false; continue; }
      if (k < n) shared = shared && v == at[k];
      Vector w = KP[k];
      double s = 1;
      if (KM[k] == 0) { s = w.x * w.x + w.y * w.y; w = w * (R * R); }
      nk::eq(d.pointlist[v].x * s, w.x, "corners of the exterior triangles", 10); nk::eq(d.pointlist[v].y * s, w.y, "corners of the exterior triangles", 10);
    }
    int a = (int)d.triangleattributelist[NT + i];
    mat = mat && a >= 0 && a < (int)m.drawing.region_map.size() && m.drawing.region_map[a].id == 99;
  }
  nk::check(valid, split == 1 ? "corner numbers are valid, rim edge split" : "corner numbers are valid");
  nk::check(shared, "rim points are shared");
  nk::check(mat, "exterior material"); nk::check((int)m.drawing.region_map.size() == rm + !known, "one entry for the exterior material");
}
