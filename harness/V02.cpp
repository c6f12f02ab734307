// pictures: what is drawn where, in which colour (the drawing primitives of OpenCV are replaced by recorders)
#include "msh.hpp"
#include "algebra/csr.hpp"
#include "algebra/coo.hpp"
#include <opencv2/imgproc.hpp>
#include <opencv2/imgcodecs.hpp>
struct Line { cv::Point a, b; cv::Scalar c; };
struct Fill { std::vector<cv::Point> p; cv::Scalar c; };
struct Disc { cv::Point o; int r; cv::Scalar c; };
static std::vector<Line> LINES;
static std::vector<Fill> FILLS;
static std::vector<Disc> DISCS;
static cv::Mat SAVED;
static int SAVES, PAINT;
namespace cv {
void line(InputOutputArray, Point a, Point b, const Scalar &c, int, int, int) { LINES.push_back({a, b, c}); }
void fillPoly(InputOutputArray io, InputArrayOfArrays p, const Scalar &c, int, int, Point) {
  auto &v = *(std::vector<std::vector<cv::Point>> *)p.getObj();
  for (auto &q : v) FILLS.push_back({q, c});
  if (PAINT) for (auto &q : v) {                      // leave the colour in the middle of the cell
    long x = 0, y = 0;
    for (auto &a : q) { x += a.x; y += a.y; }
    Mat m = io.getMat(); int n = q.size();
    m.at<Vec3b>(y / n, x / n) = Vec3b(c[0], c[1], c[2]);
  }
}
void circle(InputOutputArray, Point o, int r, const Scalar &c, int, int, int) { DISCS.push_back({o, r, c}); }
bool imwrite(const String &, InputArray m, const std::vector<int> &) { SAVED = m.getMat().clone(); SAVES++; return true; }
}
static bool near(cv::Point a, cv::Point b, int tol = 1) { return abs(a.x - b.x) <= tol && abs(a.y - b.y) <= tol; }
static bool near(cv::Point a, double x, double y, int tol = 1) { return a.x >= x - tol - 0.01 && a.x <= x + tol + 0.01 && a.y >= y - tol - 0.01 && a.y <= y + tol + 0.01; }
static bool connects(const Line &l, cv::Point p, cv::Point q) { return (near(l.a, p) && near(l.b, q)) || (near(l.a, q) && near(l.b, p)); }
static void reset() { LINES.clear(); FILLS.clear(); DISCS.clear(); SAVES = 0; PAINT = 0; }
static void jet(const cv::Scalar &c, double v, double lo, double hi, const char *l) {
  double B = 255, G = 255, R = 255;
  if (v <= lo) { G = 0; R = 0; }
  else if (v >= hi) { B = 0; G = 0; }
  else {
    double t = (v - lo) / (hi - lo);
    if (t <= 0.25) { R = 0; G = 1020 * t; }
    else if (t <= 0.5) { R = 0; B = 255 * (2 - 4 * t); }
    else if (t <= 0.75) { B = 0; R = 255 * (4 * t - 2); }
    else { B = 0; G = 255 * (4 - 4 * t); }
  }
  nk_eq(c[0], B, 1e5, l); nk_eq(c[1], G, 1e5, l); nk_eq(c[2], R, 1e5, l);
}
static std::vector<double> values(int n, double &lo, double &hi) {
  static const double F[] = {3, -7, 12, 5, -1, 20, 8, -4, 15, 1.5, 27};
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(F[i % 11]);
  if (n > 11) { std::vector<double> s = v; std::sort(s.begin(), s.end()); lo = s[n / 10]; hi = s[9 * n / 10]; return v; }
  int free = nk_thorough() || n < 3 ? nk_choose("free value", n) : nk_choose("free value", 3) * (n - 1) / 2;
  v[free] = nk_real("v", -60, 60);
  std::vector<double> s;                              // insertion sort
  for (double x : v) { size_t i = s.size(); s.push_back(x); while (i > 0 && s[i - 1] > x) { s[i] = s[i - 1]; i--; } s[i] = x; }
  lo = s[n / 10]; hi = s[9 * n / 10];
  return v;
}
void nk_harness() {
  reset();
  int part = nk_choose("part", 5);
  if (part == 0) {                       // drawing, anywhere and in any unit
    double s = nk_real("s", 0.01, 40); Vector t = pt("t", -500, 500);
    auto at = [&](double x, double y) { return Vector(t.x + s * x, t.y + s * y); };
    Draw d;
    int k = nk_choose("figures", 4);
    std::vector<Vector> P; std::vector<std::pair<int, int>> E;
    auto loop = [&](std::vector<Vector> q) { int b = P.size(); std::vector<Vector> r; for (size_t i = 0; i < q.size(); i++) { P.push_back(q[i]); E.push_back({b + (int)i, b + (int)((i + 1) % q.size())}); r.push_back(at(q[i].x, q[i].y)); } d.drawPolygon(r); };
    if (k == 0) loop({{0, 0}, {8, 0}, {8, 4}, {0, 4}});
    if (k == 1) loop({{1, 0}, {4, 2}, {3, 7}, {-1, 3}});
    if (k == 2) { loop({{0, 0}, {3, 0}, {0, 3}}); loop({{-5, -5}, {-4, -5}, {-4, -3}}); }
    if (k == 3) { loop({{0, 0}, {5, 0}, {5, 9}, {0, 9}}); loop({{1, 1}, {2, 1}, {2, 2}}); }
    d.drawRegion(at(1.25, 1.75), Tag{4});
    bool two = nk_choose("second mark", 2); if (two) d.drawRegion(at(4, 0.5), Tag{5});
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for (auto &p : P) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    int w = 400, h = nk_choose("format", 2) ? 400 : 240;
    double D = std::max(x1 - x0, y1 - y0);
    auto px = [&](double x, double y) { return cv::Point(0.5 * w + 0.9 * w / D * (x - (x0 + x1) / 2), 0.5 * h + 0.9 * h / D * (y - (y0 + y1) / 2)); };
    cv::Mat img = cv::Mat::zeros(h, w, CV_8UC3);
    d.plotRend(&img, w, h);
    std::vector<int> used(LINES.size(), 0);
    for (auto &e : E) {
      bool hit = false;
      for (size_t i = 0; i < LINES.size(); i++) if (connects(LINES[i], px(P[e.first].x, P[e.first].y), px(P[e.second].x, P[e.second].y))) { hit = true; used[i] = 1; }
      nk::check(hit, "drawing: every segment is shown at its place");
    }
    for (auto &p : P) { bool hit = false; for (auto &o : DISCS) hit = hit || near(o.o, px(p.x, p.y)); nk::check(hit, "drawing: every point is shown at its place"); }
    for (auto &o : DISCS) { bool hit = false; for (auto &p : P) hit = hit || near(o.o, px(p.x, p.y)); nk::check(hit, "drawing: nothing else is shown"); }
    for (int m = 0; m < (two ? 2 : 1); m++) {
      cv::Point c = m ? px(4, 0.5) : px(1.25, 1.75);
      int cross = 0;
      for (size_t i = 0; i < LINES.size(); i++) if (!used[i] && std::abs((LINES[i].a.x + LINES[i].b.x) / 2 - c.x) <= 1 && std::abs((LINES[i].a.y + LINES[i].b.y) / 2 - c.y) <= 1) { cross++; used[i] = 2; }
      nk::check(cross == 2, "drawing: every mark is a cross at its place");
    }
    for (int u : used) nk::check(u, "drawing: nothing else is shown");
    for (size_t i = 0; i < LINES.size(); i++) if (used[i] == 1) for (auto &l : {LINES[i]}) nk::check(l.a.x >= 0 && l.a.x <= w && l.a.y >= 0 && l.a.y <= h, "drawing: lines are inside the picture");
  } else if (part == 1 || part == 2) {   // fields per triangle or per node
    int node = part == 2, clip = nk_choose("clip", 2), k = nk_choose("mesh", nk_thorough() ? ntopo() + 2 : 5);
    if (!nk_thorough() && k < 3) k = 2 * k + !node; else if (!nk_thorough()) k += 3;
    Topo T = k < ntopo() ? topo(k) : Topo();
    if (k == ntopo()) T = {{{-3, 0}, {-2.8, 1.2}, {-4.2, 1}, {-4.5, -0.5}, {-3.5, -1.5}, {-2.5, -0.5}, {-3, -4}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 5, 1}}};
    if (k == ntopo() + 1) {
      if (clip || !node) nk_drop();
      T.p.push_back({0, 0});
      for (int i = 0; i < 260; i++) { T.p.push_back(Vector(3 * std::cos(i * M_PI / 130), 3 * std::sin(i * M_PI / 130))); T.t.push_back({0, i + 1, (i + 1) % 260 + 1}); }
    }
    double cx = 0, cy = 0, far = 0;
    int edges = nk_thorough() ? nk_choose("show mesh", 2) : clip ^ (k / 2 & 1), marks = !edges;
    double sc = clip != edges ? 0.03 : 5;
    Vector t(0, 0);
    if (!clip) t = Vector(nk_real("tx", 60, 500), nk_real("ty", -500, -60));
    else if (k == 5) nk_drop();
    std::vector<Vector> Q;
    for (auto &p : T.p) { p = Vector(sc * p.x, sc * p.y); cx += p.x; cy += p.y; }
    cx /= T.p.size(); cy /= T.p.size();
    for (auto &p : T.p) { far = std::max(far, std::sqrt((p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy))); Q.push_back(Vector(p.x + t.x, p.y + t.y)); }
    TMesh m; load(m, Q, T.t);
    m.epsilon = 1e-9;
    m.radius = clip ? sc * 2.2 : 0;      // disc of 1.5 radii = 3.3
    m.drawing.drawRegion(Vector(t.x + sc * 0.5, t.y + sc * 0.25), Tag{1});
    int loops = 0;
    if (!node) { m.drawing.drawPolygon({Q[T.t[0][0]], Q[T.t[0][1]], Q[T.t[0][2]]}); loops = 1; }
    int w = 900, h = edges ? 900 : 600;
    double half = clip ? 1.1 * m.radius : 1.1 * far;
    auto px = [&](double x, double y) { double ox = clip ? 0 : cx, oy = clip ? 0 : cy; return cv::Point(0.5 * w + 0.45 * w / half * (x - ox), 0.5 * h + 0.45 * h / half * (y - oy)); };
    double lo, hi;
    auto v = values(node ? T.p.size() : T.t.size(), lo, hi);
    auto keep = v;
    cv::Mat img(h, w, CV_8UC3, cv::Scalar(255, 255, 255));
    if (node) m.NodeScalarPlotRend(&img, w, h, v, edges, marks, clip); else m.ElemScalarPlotRend(&img, w, h, v, edges, marks, clip);
    for (size_t i = 0; i < v.size(); i++) nk::eq(v[i], keep[i], "the field is left as it was");
    auto out = [&](int i) { return clip && T.p[i].x * T.p[i].x + T.p[i].y * T.p[i].y > sc * sc * 3.3 * 3.3; };
    size_t f = 0;
    if (!node) {
      for (size_t e = 0; e < T.t.size(); e++) {
        auto &q = T.t[e];
        if (out(q[0]) || out(q[1]) || out(q[2])) continue;
        bool ok = f < FILLS.size() && FILLS[f].p.size() == 3;
        nk::check(ok, "every triangle is painted");
        if (!ok) return;
        for (int c = 0; c < 3; c++) { bool hit = false; for (auto &p : FILLS[f].p) hit = hit || near(p, px(T.p[q[c]].x, T.p[q[c]].y)); nk::check(hit, "triangles are painted at their place"); }
        if (hi > lo) jet(FILLS[f].c, v[e], lo, hi, "colour of a triangle");
        f++;
      }
    } else {
      for (size_t i = 0; i < T.p.size(); i++) {
        if (out(i) || (k == ntopo() && i == 6)) continue;
        std::vector<cv::Point> B;
        double mx = 0, my = 0;
        for (auto &q : T.t) if (q[0] == (int)i || q[1] == (int)i || q[2] == (int)i) { B.push_back(px((T.p[q[0]].x + T.p[q[1]].x + T.p[q[2]].x) / 3, (T.p[q[0]].y + T.p[q[1]].y + T.p[q[2]].y) / 3)); mx += B.back().x; my += B.back().y; }
        bool ok = f < FILLS.size() && FILLS[f].p.size() == B.size();
        nk::check(ok, "every node has its cell");
        if (!ok) return;
        for (auto &b : B) { bool hit = false; for (auto &p : FILLS[f].p) hit = hit || near(p, b); nk::check(hit, "corners of the cells"); }
        // the corners go once around
        mx /= B.size(); my /= B.size();
        double sum = 0;
        int n = B.size(), drops = 0;
        auto &C = FILLS[f].p;
        auto ang = [&](int j) { return std::atan2(C[j].y - my, C[j].x - mx); };
        for (int j = 0; j < n; j++) if (ang((j + 1) % n) < ang(j) - 0.02) drops++;
        int ups = 0;
        for (int j = 0; j < n; j++) if (ang((j + 1) % n) > ang(j) + 0.02) ups++;
        nk::check(n < 3 || drops <= 1 || ups <= 1, "cells do not cross themselves");
        (void)sum;
        if (hi > lo) jet(FILLS[f].c, v[i], lo, hi, "colour of a node");
        f++;
      }
    }
    nk::check(f == FILLS.size(), clip ? "nothing is painted outside the disc" : "nothing else is painted");
    bool inner = true;
    for (auto &q : T.t) {
      if (out(q[0]) || out(q[1]) || out(q[2])) continue;
      for (int c = 0; c < 3; c++) {
        bool hit = false;
        for (auto &l : LINES) hit = hit || connects(l, px(T.p[q[c]].x, T.p[q[c]].y), px(T.p[q[(c + 1) % 3]].x, T.p[q[(c + 1) % 3]].y));
        if (edges) nk::check(hit, "mesh edges are shown at their place");
      }
    }
    if (clip) for (auto &l : LINES) for (auto p : {l.a, l.b}) { double x = (p.x - w / 2.0) * half / (0.45 * w), y = (p.y - h / 2.0) * half / (0.45 * h); inner = inner && (l.c[0] == 255 || x * x + y * y < sc * sc * 3.35 * 3.35); }
    nk::check(inner, "nothing is painted outside the disc");
    if (loops) for (int c = 0; c < 3; c++) {
      bool hit = false;
      for (auto &l : LINES) hit = hit || (l.c[0] == 255 && l.c[1] == 255 && l.c[2] == 255 && connects(l, px(T.p[T.t[0][c]].x, T.p[T.t[0][c]].y), px(T.p[T.t[0][(c + 1) % 3]].x, T.p[T.t[0][(c + 1) % 3]].y)));
      nk::check(hit, "the drawing is shown over the field");
    }
    if (marks) {
      cv::Point c = px(sc * 0.5, sc * 0.25);
      bool hit = false;
      for (auto &o : DISCS) hit = hit || near(o.o, c);
      for (auto &l : LINES) hit = hit || (std::abs((l.a.x + l.b.x) / 2 - c.x) <= 1 && std::abs((l.a.y + l.b.y) / 2 - c.y) <= 1);
      nk::check(hit, "marks are shown at their place");
    }
  } else if (part == 4) {                // pictures written to files
    int kind = nk_choose("kind", 5), w = nk_choose("width", 2) ? 300 : 180, h = nk_choose("height", 2) ? 300 : 120, clip = nk_choose("clip", 2);
    if (kind == 4) {
      if (clip) nk_drop();
      double s = nk_real("s", 0.01, 40);
      Draw d; d.drawPolygon({Vector(0, 0), Vector(8 * s, 0), Vector(8 * s, 4 * s), Vector(0, 4 * s)});
      d.plotToFile(w, h, "unused.png");
      nk::check(LINES.size() == 4, "file: the whole drawing is shown");
    } else {
      Topo T = topo(3);
      TMesh m;
      double sc = clip ? 1 : 2, far = 0, cx = 0, cy = 0;
      for (auto &p : T.p) { p = Vector(sc * p.x, sc * p.y); cx += p.x / T.p.size(); cy += p.y / T.p.size(); }
      for (auto &p : T.p) far = std::max(far, std::sqrt((p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy)));
      load(m, T.p, T.t);
      m.epsilon = 1e-9; m.radius = 20;
      double half = 1.1 * (clip ? m.radius : far);
      int vec = kind & 1, node = kind / 2, n = node ? T.p.size() : T.t.size();
      double q = nk_real("q", 0.5, 4);
      static const double F[] = {3, 7, 12, 5, 1, 20, 8, 4, 15, 1.5, 27}, U[][2] = {{1, 0}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}};
      std::vector<double> f; std::vector<Vector> g; std::vector<double> sorted;
      for (int i = 0; i < n; i++) { sorted.push_back(F[i % 11]); f.push_back(q * F[i % 11]); g.push_back(Vector(f[i] * U[i % 4][0], f[i] * U[i % 4][1])); }
      std::sort(sorted.begin(), sorted.end());
      double lo = sorted[n / 10], hi = sorted[9 * n / 10];
      PAINT = 1;
      if (kind == 0) m.ElemScalarPlotToFile(w, h, f, "unused.png", false, false, clip);
      if (kind == 1) m.ElemScalarPlotToFile(w, h, g, "unused.png", false, false, clip);
      if (kind == 2) m.NodeScalarPlotToFile(w, h, f, "unused.png", false, false, clip);
      if (kind == 3) m.NodeScalarPlotToFile(w, h, g, "unused.png", false, false, clip);
      nk::check((int)FILLS.size() == n, "file: the whole field is shown");
      if (SAVES == 1 && SAVED.rows == h && SAVED.cols == w && (int)FILLS.size() == n) for (int i = 0; i < n; i++) {
        // y grows upwards in the file
        double v = F[i % 11], B = 255, G = 255, R = 255, x = 0, y = 0;
        if (v <= lo) { G = 0; R = 0; } else if (v >= hi) { B = 0; G = 0; }
        else { double t = (v - lo) / (hi - lo); if (t <= 0.25) { R = 0; G = 1020 * t; } else if (t <= 0.5) { R = 0; B = 255 * (2 - 4 * t); } else if (t <= 0.75) { B = 0; R = 255 * (4 * t - 2); } else { B = 0; G = 255 * (4 - 4 * t); } }
        int k = 0;
        if (!node) for (int c : T.t[i]) { x += T.p[c].x; y += T.p[c].y; k++; }
        else for (auto &t : T.t) if (t[0] == i || t[1] == i || t[2] == i) { for (int c : t) { x += T.p[c].x / 3; y += T.p[c].y / 3; } k++; }
        double X = 0.5 * w + 0.45 * w / half * (x / k - (clip ? 0 : cx)), Y = h - 1 - (0.5 * h + 0.45 * h / half * (y / k - (clip ? 0 : cy)));
        bool hit = false;
        for (int dx = -2; dx <= 2; dx++) for (int dy = -2; dy <= 2; dy++) {
          int a = (int)std::floor(X + 0.5) + dx, b = (int)std::floor(Y + 0.5) + dy;
          if (a < 0 || b < 0 || a >= w || b >= h) continue;
          cv::Vec3b c = SAVED.at<cv::Vec3b>(b, a);
          hit = hit || (std::abs(c[0] - B) <= 1.5 && std::abs(c[1] - G) <= 1.5 && std::abs(c[2] - R) <= 1.5);
        }
        nk::check(hit, "file: colours are at their place, y upwards");
      }
    }
    nk::check(SAVES == 1 && SAVED.rows == h && SAVED.cols == w, "file: one picture of the wanted size");
  } else {                               // matrix
    int n = 4, k = nk_choose("signs", 5);
    double s = nk_real("s", 0.01, 100), o = k == 1 ? 20 : k == 2 ? -20 : 0;
    MatCOOSymmetric<double> M(n);
    double A[4][4] = {{4, -1, 0, 2}, {-1, 7, 0, 0}, {0, 0, 1, -3}, {2, 0, -3, 6}};
    if (k >= 3) { A[0][1] = -8; A[0][3] = 9; A[2][3] = k == 3 ? -8.5 : 5; }       // extremes off the diagonal
    double lo = 1e9, hi = -1e9;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (A[i][j] != 0) { A[i][j] += o; A[j][i] = A[i][j]; M(i, j) = s * A[i][j]; lo = std::min(lo, A[i][j]); hi = std::max(hi, A[i][j]); }
    MatCSRSymmetric C(M);
    C.plot("unused.png");
    nk::check(SAVES == 1 && SAVED.rows == n && SAVED.cols == n, "matrix: one picture of its size");
    if (SAVES != 1 || SAVED.rows != n || SAVED.cols != n) return;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      cv::Vec3b c = SAVED.at<cv::Vec3b>(i, j);
      if (A[i][j] == 0) { nk::check(c[0] + c[1] + c[2] == 0, "matrix: absent entries are black"); continue; }
      double t = (A[i][j] - lo) / (hi - lo), B = 255, G = 255, R = 255;
      if (t <= 0.25) { R = 0; G = 1020 * t; } else if (t <= 0.5) { R = 0; B = 255 * (2 - 4 * t); } else if (t <= 0.75) { B = 0; R = 255 * (4 * t - 2); } else { B = 0; G = 255 * (4 - 4 * t); }
      nk::check(std::abs(c[0] - B) <= 1.5 && std::abs(c[1] - G) <= 1.5 && std::abs(c[2] - R) <= 1.5, "matrix: colour of an entry");
    }
  }
}
