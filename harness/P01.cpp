// the Python module, called through a real interpreter: every argument arrives, every result comes back
#include <Python.h>
// g++ only takes the mixed initialisers of the module before C++20
#undef PyModuleDef_HEAD_INIT
#define PyModuleDef_HEAD_INIT .m_base = {PyObject_HEAD_INIT(NULL) NULL, 0, NULL}
#include "python/nikfemm.cpp"
#include "fem.hpp"
#include <functional>
typedef std::vector<double> Vec;
struct Asked { std::string how; std::vector<Vector> p; Vec regions; std::vector<int> segments; };
static std::vector<Shape> MESHES;
static std::vector<std::vector<int>> ATTRS;
static std::vector<Asked> ASKED;
void triangulate(char *how, triangulateio *in, triangulateio *out, triangulateio *) {
  size_t k = ASKED.size() % MESHES.size();
  Asked a; a.how = how;
  for (int i = 0; i < in->numberofpoints; i++) a.p.push_back(Vector(in->pointlist[2 * i], in->pointlist[2 * i + 1]));
  for (int i = 0; i < 4 * in->numberofregions; i++) a.regions.push_back(in->regionlist[i]);
  for (int i = 0; i < 2 * in->numberofsegments; i++) a.segments.push_back(in->segmentlist[i]);
  ASKED.push_back(a);
  const Shape &S = MESHES[k];
  out->numberofpoints = S.p.size(); out->pointlist = (double *)malloc(16 * S.p.size()); out->pointmarkerlist = (int *)calloc(S.p.size(), 4);
  for (size_t i = 0; i < S.p.size(); i++) { out->pointlist[2 * i] = S.p[i].x; out->pointlist[2 * i + 1] = S.p[i].y; }
  out->numberoftriangles = S.t.size(); out->numberofcorners = 3; out->numberoftriangleattributes = 1; out->trianglelist = (int *)malloc(12 * S.t.size()); out->triangleattributelist = (double *)malloc(8 * S.t.size());
  for (size_t i = 0; i < S.t.size(); i++) { for (int j = 0; j < 3; j++) out->trianglelist[3 * i + j] = S.t[i][j]; out->triangleattributelist[i] = ATTRS[k][i]; }
}
// the linear solver returns any potentials (its contract is A06); the system it got is kept
static Vec POT, GOTB; static std::vector<Vec> GOTA;
static void stub(const MatCSRSymmetric &A, const Vec &b, Vec &x) {
  GOTB = b; GOTA.assign(A.m, Vec(A.m, 0.0));
  for (uint32_t i = 0; i < A.m; i++) for (uint32_t j = i; j < A.m; j++) GOTA[i][j] = A(i, j);
  x = POT;
}
extern "C" {
void __wrap__ZN7nikfemm23conjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, uint32_t) { stub(A, b, x); }
void __wrap__ZN7nikfemm43preconditionedJacobiConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, uint32_t) { stub(A, b, x); }
void __wrap__ZN7nikfemm41preconditionedSSORConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_ddj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, double, uint32_t) { stub(A, b, x); }
void __wrap__ZN7nikfemm55preconditionedIncompleteCholeskyConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, uint32_t) { stub(A, b, x); }
}
typedef PyObject *Py;
static Py F(double v) { return PyFloat_FromDouble(v); }
static Py I(long v) { return PyLong_FromLong(v); }
static Py S(const char *s) { return PyUnicode_FromString(s); }
static Py L(const std::vector<Py> &v) { Py l = PyList_New(v.size()); for (size_t i = 0; i < v.size(); i++) PyList_SetItem(l, i, v[i]); return l; }
static Py call(Py f, const std::vector<Py> &v) {
  Py t = PyTuple_New(v.size());
  for (size_t i = 0; i < v.size(); i++) { Py_INCREF(v[i]); PyTuple_SetItem(t, i, v[i]); }
  return f ? PyObject_CallObject(f, t) : NULL;
}
static Py on(Py o, const char *m, const std::vector<Py> &v) { return call(PyObject_GetAttrString(o, m), v); }
static bool failed(Py r) { bool f = !r && PyErr_Occurred(); PyErr_Clear(); return f; }
static Py item(Py o, size_t i) { Py r = PySequence_GetItem(o, i); return r; }
static double num(Py o) { return PyFloat_Check(o) ? PyFloat_AsDouble(o) : (double)PyLong_AsLong(o); }
static long whole(Py o) { return PyLong_AsLong(o); }
static size_t len(Py o) { return o ? PySequence_Size(o) : 0; }
static Py MODULE;
static Py point(Vector p) { return L({F(p.x), F(p.y)}); }
static Py TYPE() { return PyObject_GetAttrString(MODULE, "MultiLayerCurrentDensitySimulation"); }
static bool same(const std::vector<Asked> &a, const std::vector<Asked> &b, const char *l) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); k++) {
    if (a[k].how != b[k].how || a[k].p.size() != b[k].p.size() || a[k].regions.size() != b[k].regions.size() || a[k].segments != b[k].segments) return false;
    for (size_t i = 0; i < a[k].p.size(); i++) { nk::eq(a[k].p[i].x, b[k].p[i].x, l, 10); nk::eq(a[k].p[i].y, b[k].p[i].y, l, 10); }
    for (size_t i = 0; i < a[k].regions.size(); i++) nk::eq(a[k].regions[i], b[k].regions[i], l, 10);
  }
  return true;
}
static Topo small(int k) {
  switch (k) {
  case 0: return {{{0, 0}, {4, 0}, {1, 3}}, {{0, 1, 2}}};
  case 1: return {{{0, 0}, {4, 0}, {4, 3}, {0, 3}}, {{0, 1, 2}, {0, 2, 3}}};
  default: return {{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2, 1.5}}, {{4, 0, 1}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}};
  }
}
// calls that have to be refused; every one has to leave the simulation as it was
static bool refuse(Py sim, Py sys, int k) {
  Py p = L({F(0), F(1)}), q = L({F(2), F(3)}), s = L({F(0), S("x")});
  switch (k) {
  case 0: return failed(on(sim, "draw_rectangle", {p, q}));
  case 1: return failed(on(sim, "draw_rectangle", {p, S("q"), I(0)}));
  case 2: return failed(on(sim, "draw_rectangle", {p, s, I(0)}));
  case 3: return failed(on(sim, "draw_rectangle", {s, q, I(0)}));
  case 4: return failed(on(sim, "draw_rectangle", {p, q, F(0)}));
  case 5: return failed(on(sim, "draw_region", {p, F(1)}));
  case 6: return failed(on(sim, "draw_region", {s, F(1), I(0)}));
  case 7: return failed(on(sim, "draw_region", {p, S("1"), I(0)}));
  case 8: return failed(on(sim, "draw_region", {p, F(1), S("0")}));
  case 9: return failed(on(sim, "draw_polygon", {L({p, q, s}), I(0)}));
  case 10: return failed(on(sim, "draw_polygon", {L({p, q, L({F(1)})}), I(0)}));
  case 11: return failed(on(sim, "draw_polygon", {L({p, q, F(1)}), I(0)}));
  case 12: return failed(on(sim, "draw_polygon", {L({p, q, L({F(1), F(5)})})}));
  case 13: return failed(on(sim, "draw_polygon", {L({p, q, L({F(1), F(5)})}), F(0)}));
  case 14: return failed(on(sim, "add_interconnection", {p, q, I(0), I(0)}));
  case 15: return failed(on(sim, "add_interconnection", {p, s, I(0), I(0), F(1)}));
  case 16: return failed(on(sim, "add_interconnection", {p, q, I(0), F(0), F(1)}));
  case 17: return failed(on(sim, "add_interconnection", {p, q, S("0"), I(0), F(1)}));
  case 18: return failed(on(sim, "add_interconnection", {p, q, I(0), I(0), S("1")}));
  case 19: return failed(on(sim, "generate_system", {I(1)}));
  case 20: return failed(on(sim, "generate_system", {Py_True, S("1")}));
  case 21: return failed(on(sim, "generate_system", {Py_True, F(1), S("30")}));
  case 22: return failed(on(sim, "generate_system", {Py_True, F(1), F(30), F(1)}));
  case 23: return failed(on(sim, "set_voltage", {sys, p, F(1)}));
  case 24: return failed(on(sim, "set_voltage", {p, p, F(1), I(0)}));
  case 25: return failed(on(sim, "set_voltage", {sys, s, F(1), I(0)}));
  case 26: return failed(on(sim, "set_voltage", {sys, p, S("1"), I(0)}));
  case 27: return failed(on(sim, "set_voltage", {sys, p, F(1), F(0)}));
  case 28: return failed(on(sim, "solve", {}));
  case 29: return failed(on(sim, "solve", {p}));
  case 30: return failed(call(TYPE(), {I(2)}));
  case 31: return failed(call(TYPE(), {I(2), L({F(1)})}));
  case 32: return failed(call(TYPE(), {I(2), L({F(1), F(1), F(1)})}));
  case 33: return failed(call(TYPE(), {I(2), L({F(1), S("1")})}));
  case 34: return failed(call(TYPE(), {S("2"), L({F(1), F(1)})}));
  case 35: return failed(on(sim, "draw_rectangle", {L({F(0)}), q, I(0)}));
  case 36: return failed(on(sim, "draw_rectangle", {p, L({F(0), F(1), F(2)}), I(0)}));
  case 37: return failed(on(sim, "draw_region", {L({}), F(1), I(0)}));
  case 38: return failed(on(sim, "add_interconnection", {p, L({I(1)}), I(0), I(0), F(1)}));
  case 39: return failed(on(sim, "add_interconnection", {L({F(1)}), p, I(0), I(0), F(1)}));
  case 40: return failed(on(sim, "set_voltage", {sys, L({F(1)}), F(1), I(0)}));
  case 41: return failed(on(sim, "draw_rectangle", {p, q, I(2)}));
  case 42: return failed(on(sim, "draw_region", {p, F(1), I(-1)}));
  case 43: return failed(on(sim, "draw_polygon", {L({p, q, L({F(1), F(5)})}), I(9)}));
  case 44: return failed(on(sim, "add_interconnection", {p, q, I(2), I(0), F(1)}));
  case 45: return failed(on(sim, "add_interconnection", {p, q, I(0), I(-1), F(1)}));
  case 46: return failed(on(sim, "set_voltage", {sys, p, F(1), I(2)}));
  default: return failed(call(TYPE(), {I(2), F(1)}));
  }
}
static bool after(int k) { return (k >= 23 && k <= 34) || k == 40 || k >= 46; }  // these need a system
void nk_harness() {
  if (!Py_IsInitialized()) Py_InitializeEx(0);
  if (!MODULE) MODULE = PyInit_nikfemm();
  MESHES.clear(); ATTRS.clear(); ASKED.clear(); GOTA.clear(); GOTB.clear(); POT.clear();
  int part = nk_choose("part", 3), wrong = part == 2 ? nk_choose("refused call", 48) : -1;
  int L_ = part == 2 ? 2 : 1 + nk_choose("layers", 3), ints = part == 1, kind = part == 2 ? 0 : nk_choose("arguments of the mesher", 4), refine = part == 2 ? 0 : nk_choose("refine", 2), wiring = L_ == 1 ? 0 : part == 2 ? 1 : nk_choose("wiring", 3);
  if (kind == 0 && !refine && part != 2) nk_drop();
  std::vector<Py> depths; Vec depth;
  std::vector<std::vector<Vector>> at;
  for (int l = 0; l < L_; l++) {
    depth.push_back(ints ? 2 + l : nk::real(nk::nm("depth", l), 0.1, 5));
    depths.push_back(ints ? I(2 + l) : F(depth[l]));
  }
  Py sim = call(TYPE(), {I(L_), L(depths)});
  nk::check(sim != NULL, "a simulation is made");
  MultiLayerCurrentDensitySimulation ref(L_, depth);
  int total = 0; std::vector<int> off;
  auto N = [&](double v) { return ints ? I((long)v) : F(v); };
  auto P = [&](Vector p) { return L({N(p.x), N(p.y)}); };
  for (int l = 0; l < L_; l++) {
    Topo T = small((l + L_) % 3); Shape Q; Q.t = T.t;
    // no number can be -1, Python's mark of a failed conversion, that every conversion may be compared with
    double lo = l % 2 ? -30 : 2, hi = l % 2 ? -20 : 9;
    double dx = ints ? 3 * l - 2 : nk::real(nk::nm("dx", l), lo, hi), dy = ints ? 5 - l : nk::real(nk::nm("dy", l), refine ? lo : 2, refine ? hi : 9), sigma = ints ? 1.5 + l : nk::real(nk::nm("sigma", l), 0.1, 9);
    for (auto &p : T.p) Q.p.push_back(Vector(p.x + dx, p.y + dy));
    Vector a(dx - 1, dy - 1), b(dx + 6, dy + 7), c(dx + 1, dy + 1);
    bool ok;
    if ((l + refine) % 2) {
      std::vector<Vector> poly = {a, Vector(b.x, a.y), Vector(b.x + 1, b.y), Vector(dx + 2, dy + 9), Vector(a.x, b.y)};
      std::vector<Py> pp; for (auto &p : poly) pp.push_back(P(p));
      ok = on(sim, "draw_polygon", {L(pp), I(l)}) == Py_None;
      ref.meshes[l].drawing.drawPolygon(poly);
    } else {
      ok = on(sim, "draw_rectangle", {P(a), P(b), I(l)}) == Py_None;
      ref.meshes[l].drawing.drawRectangle(a, b);
    }
    ok = ok && on(sim, "draw_region", {P(c), F(sigma), I(l)}) == Py_None;
    ref.meshes[l].drawing.drawRegion(c, {sigma});
    nk::check(ok, "drawing returns nothing");
    MESHES.push_back(Q); ATTRS.push_back(std::vector<int>(Q.t.size(), 0)); at.push_back(Q.p);
    off.push_back(total); total += Q.p.size();
  }
  for (int w = 0; w < wiring; w++) {
    int i = w ? L_ - 1 : 0, j = w ? 0 : 1;
    Vector p = at[i][w ? 2 : 1], q = at[j][w ? 0 : 2];
    double R = ints ? 2 + w : nk::real(nk::nm("R", w), 0.1, 9);
    nk::check(on(sim, "add_interconnection", {P(p), P(q), I(i), I(j), N(R)}) == Py_None, "drawing returns nothing");
    ref.interconnections.push_back({p, q, (uint64_t)i, (uint64_t)j, R});
  }
  if (wrong >= 0 && !after(wrong)) nk::check(refuse(sim, NULL, wrong), "such a call is refused");
  ASKED.clear();
  std::vector<Py> how;
  double area = ints ? 2 : 0.5; int angle = 20 + 5 * ints;
  if (kind >= 1) how.push_back(PyBool_FromLong(refine));
  if (kind >= 2) how.push_back(N(area));
  if (kind >= 3) how.push_back(ints ? I(angle) : F(angle));
  Py got = on(sim, "generate_system", how);
  nk::check(len(got) == 3, "system, triangles and points");
  std::vector<Asked> asked = ASKED; ASKED.clear();
  bool fine = kind ? refine : 1;
  auto sys = kind == 3 ? ref.generateSystem(fine, area, angle) : kind == 2 ? ref.generateSystem(fine, area, 33) : ref.generateSystem(fine, 1, 33);
  nk::check(same(asked, ASKED, "the mesher gets what was drawn"), "the mesher gets what was drawn");
  Py tri = item(got, 1), pts = item(got, 2);
  bool ok = (int)len(tri) == L_ && (int)len(pts) == total;
  for (int l = 0; l < L_ && ok; l++) {
    Py t = item(tri, l);
    ok = len(t) == MESHES[l].t.size();
    for (size_t i = 0; ok && i < len(t); i++) for (int j = 0; j < 3; j++) ok = ok && len(item(t, i)) == 3 && whole(item(item(t, i), j)) == MESHES[l].t[i][j] + off[l];
    for (size_t i = 0; ok && i < at[l].size(); i++) {
      Py v = item(pts, off[l] + i);
      ok = ok && len(v) == 2;
      if (ok) { nk::eq(num(item(v, 0)), at[l][i].x, "the mesh's points come back", 10); nk::eq(num(item(v, 1)), at[l][i].y, "the mesh's points come back", 10); }
    }
  }
  nk::check(ok, "the mesh comes back layer by layer");
  if (!ok) return;
  Py psys = item(got, 0);
  for (int k = 0; k < 2; k++) {
    int l = k ? L_ - 1 : 0; Vector p = at[l][k ? 2 : 0];
    double v = ints ? 3 - 5 * k : k ? nk::real("V1", -9, -1.5) : nk::real("V0", 1.5, 9);
    nk::check(on(sim, "set_voltage", {psys, P(p), N(v), I(l)}) == Py_None, "drawing returns nothing");
    ref.setVoltage(sys, p, v, l);
  }
  if (after(wrong)) nk::check(refuse(sim, psys, wrong), "such a call is refused");
  for (int i = 0; i < total; i++) POT.push_back(nk::real(nk::nm("u", i), -9, 9));
  Py out = on(sim, "solve", {psys});
  std::vector<Vec> A = GOTA; Vec b = GOTB;
  GOTA.clear(); GOTB.clear();
  Vec x = ref.solve(sys), pd = ref.computePowerDensity(x);
  nk::check(len(out) == 3, "voltages, triangles and power densities");
  ok = (int)A.size() == total && (int)b.size() == total && (int)GOTA.size() == total;
  nk::check(ok, "the drawn system is solved");
  for (int i = 0; ok && i < total; i++) { nk::eq(b[i], GOTB[i], "the drawn system is solved", 100); for (int j = 0; j < total; j++) nk::eq(A[i][j], GOTA[i][j], "the drawn system is solved", 10); }
  Py volts = item(out, 0), ts = item(out, 1), pw = item(out, 2);
  size_t nt = 0; for (auto &m : MESHES) nt += m.t.size();
  ok = (int)len(volts) == total && len(ts) == nt && len(pw) == nt && pd.size() == nt;
  nk::check(ok, "one voltage per node, one triangle and power density per triangle");
  if (!ok) return;
  size_t ti = 0;
  for (int l = 0; l < L_; l++) {
    for (size_t i = 0; i < at[l].size(); i++) {
      Py v = item(volts, off[l] + i);
      nk::check(len(v) == 4 && whole(item(v, 0)) == l, "voltages come with layer and place");
      nk::eq(num(item(v, 1)), at[l][i].x, "voltages come with layer and place", 10); nk::eq(num(item(v, 2)), at[l][i].y, "voltages come with layer and place", 10);
      nk::eq(num(item(v, 3)), POT[off[l] + i], "voltages come back", 10);
    }
    for (auto &t : MESHES[l].t) {
      Py v = item(ts, ti), w = item(pw, ti);
      bool same = len(v) == 4 && whole(item(v, 0)) == l;
      for (int j = 0; j < 3; j++) same = same && whole(item(v, 1 + j)) == t[j] + off[l];
      nk::check(same, "triangles come with layer and corners");
      nk::eq(num(item(w, len(w) - 1)), pd[ti], "power densities come back", 10);
      ti++;
    }
  }
}
