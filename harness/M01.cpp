// what the mesher is asked for
#include "msh.hpp"
static struct Seen { int n = 0; std::string sw; std::vector<Vector> pts; std::vector<std::pair<int, int>> seg; std::vector<double> reg; int holes, patt; bool nulls; } seen;
static Topo OUTT;
void triangulate(char *sw, triangulateio *in, triangulateio *out, triangulateio *vor) {
  seen = Seen(); seen.n = 1; seen.sw = sw;
  for (int i = 0; i < in->numberofpoints; i++) seen.pts.push_back(Vector(in->pointlist[2 * i], in->pointlist[2 * i + 1]));
  for (int i = 0; i < in->numberofsegments; i++) seen.seg.push_back({in->segmentlist[2 * i], in->segmentlist[2 * i + 1]});
  for (int i = 0; i < 4 * in->numberofregions; i++) seen.reg.push_back(in->regionlist[i]);
  seen.holes = in->numberofholes; seen.patt = in->numberofpointattributes;
  seen.nulls = !in->pointmarkerlist && !in->segmentmarkerlist && !out->pointlist && !out->pointattributelist && !out->pointmarkerlist && !out->trianglelist && !out->triangleattributelist && !out->neighborlist && !out->segmentlist && !out->segmentmarkerlist && !out->edgelist && !out->edgemarkerlist && !vor;
  out->numberofpoints = OUTT.p.size(); out->pointlist = (double *)malloc(16 * OUTT.p.size()); out->pointmarkerlist = (int *)calloc(OUTT.p.size(), 4);
  for (size_t i = 0; i < OUTT.p.size(); i++) { out->pointlist[2 * i] = OUTT.p[i].x; out->pointlist[2 * i + 1] = OUTT.p[i].y; }
  out->numberoftriangles = OUTT.t.size(); out->numberofcorners = 3; out->numberoftriangleattributes = 1; out->trianglelist = (int *)malloc(12 * OUTT.t.size()); out->triangleattributelist = (double *)malloc(8 * OUTT.t.size());
  for (size_t i = 0; i < OUTT.t.size(); i++) { for (int j = 0; j < 3; j++) out->trianglelist[3 * i + j] = OUTT.t[i][j]; out->triangleattributelist[i] = i % 2; }
}
// switches: letters, angle, area
static bool parse(const std::string &s, std::string &letters, double &angle, double &area) {
  letters = ""; angle = -1; area = -1;
  for (size_t i = 0; i < s.size();) {
    char c = s[i++];
    letters += c;
    size_t j = i;
    while (j < s.size() && (isdigit(s[j]) || s[j] == '.')) j++;
    std::string num = s.substr(i, j - i);
    if (!num.empty()) { if (c == 'q') angle = strtod(num.c_str(), 0); else if (c == 'a') area = strtod(num.c_str(), 0); else return false; }
    i = j;
  }
  return true;
}
void nk_harness() {
  static const double AREAS[] = {1, 0.25, 0.1, 3.75, 1e-3, 1e-6, 1e-9, 0.6180339887498949, 1000, 123456.789, 1e9, 1e14, 1e15, 1e16, 1e20, 1e120, 1e300};
  static const int ANG[] = {33, 0, 5, 20, 34, 28};
  TMesh m;
  int part = nk_choose("part", 3);
  std::vector<Vector> P, marks;
  std::vector<int> ids;
  Vector a = pt("a", -9, 9);
  double w = nk_real("w", 0.1, 9), h = nk_real("h", 0.1, 9);
  double area = 1; int ang = 33;
  if (part == 0) {
    int na = nk_choose("area", sizeof AREAS / sizeof *AREAS); area = AREAS[na]; ang = ANG[nk_choose("angle", 6)];
    m.drawing.drawRectangle(a, w, h);
    Tag t; t.id = 1;
    m.drawing.drawRegion(Vector(a.x + w / 2, a.y + h / 2), t);
  } else if (part == 2) {
    // many points, segments, marks, materials
    int n = nk_thorough() ? 700 : 280;
    m.drawing.drawRectangle(a, w, h);
    m.drawing.drawCircle(Vector(-60, 3), 2, n);
    for (int i = 0; i < n; i++) { Tag t; t.id = i; m.drawing.drawRegion(Vector(i * 0.25, i == 5 || i == 270 ? a.x : 1), t); }
  } else {
    int figs = 1 + nk_choose("figures", 3), nreg = nk_choose("marks", 5), extra = nk_choose("extra points", 3);
    std::vector<Vector> Q = poly(nk_choose("polygon", npoly()));
    m.drawing.drawRectangle(a, w, h);
    if (figs > 1) { for (auto &q : Q) q = q + Vector(40, 0); m.drawing.drawPolygon(Q); }
    if (figs > 2) m.drawing.drawCircle(Vector(-60, 3), 2, 9);
    for (int i = 0; i < nreg; i++) { Tag t; t.id = (i * 5) % 3; m.drawing.drawRegion(Vector(nk_real(nk::nm("mx", i).c_str(), -9, 9), i), t); }
    for (int i = 0; i < extra; i++) m.drawing.drawPoint(Vector(nk_real(nk::nm("ex", i).c_str(), 100, 120), 0.5 + i));
  }
  Draw o = m.drawing;
  OUTT = part == 2 ? grid(17, 16) : topo(nk_choose("result", part ? 1 : 3));
  if (area == 1 && ang == 33 && part) m.mesh(); else m.mesh(area, ang);
  nk::check(seen.n == 1, "the mesher runs");
  nk::check(seen.pts.size() == o.points.size() && seen.seg.size() == o.segments.size() && seen.reg.size() == 4 * o.regions.size(), "input: counts");
  if (seen.pts.size() != o.points.size() || seen.seg.size() != o.segments.size() || seen.reg.size() != 4 * o.regions.size()) return;
  for (size_t i = 0; i < o.points.size(); i++) { nk::eq(seen.pts[i].x, o.points[i].x, "input: points"); nk::eq(seen.pts[i].y, o.points[i].y, "input: points"); }
  bool ok = true;
  for (size_t i = 0; i < o.segments.size(); i++) ok = ok && ((seen.seg[i].first == (int)o.segments[i].p1 && seen.seg[i].second == (int)o.segments[i].p2) || (seen.seg[i].first == (int)o.segments[i].p2 && seen.seg[i].second == (int)o.segments[i].p1));
  nk::check(ok, "input: segments");
  for (size_t i = 0; i < o.regions.size(); i++) { nk::eq(seen.reg[4 * i], o.regions[i].first.x, "input: marks"); nk::eq(seen.reg[4 * i + 1], o.regions[i].first.y, "input: marks"); nk::eq(seen.reg[4 * i + 2], o.regions[i].second, "input: material numbers"); }
  nk::check(seen.holes == 0 && seen.patt == 0 && seen.nulls, "input: nothing else, outputs allocated by the mesher");
  std::string let; double pa, pq;
  bool wf = parse(seen.sw, let, pq, pa);
  nk::check(wf && let.find('p') != std::string::npos && let.find('z') != std::string::npos && let.find('A') != std::string::npos && let.find('a') != std::string::npos, "options: regions, zero-based numbering, area limit");
  nk::check(let.find('v') == std::string::npos && let.find('n') == std::string::npos && let.find('o') == std::string::npos && let.find('r') == std::string::npos, "options: plain three-corner output");
  nk::check(pq == ang, "options: minimum angle");
  nk::check(std::fabs(pa - area) <= 1e-7 * area, "options: area limit");
  // the result is the mesher's
  auto &d = m.data;
  nk::check(d.numberofpoints == (int)OUTT.p.size() && d.numberoftriangles == (int)OUTT.t.size(), "result: counts");
  ok = true;
  for (size_t i = 0; i < OUTT.p.size(); i++) ok = ok && d.pointlist[i].x == OUTT.p[i].x && d.pointlist[i].y == OUTT.p[i].y;
  for (size_t i = 0; i < OUTT.t.size(); i++) for (int j = 0; j < 3; j++) ok = ok && d.trianglelist[i][j] == OUTT.t[i][j] && d.triangleattributelist[i] == i % 2;
  nk::check(ok, "result: points, triangles and materials");
  nk::check(m.drawing.points.size() == o.points.size() && m.drawing.segments.size() == o.segments.size(), "the drawing is kept");
}
