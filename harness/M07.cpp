// placing the mesh in a picture
#include "msh.hpp"
void nk_harness() {
  int clip = nk_choose("clip", 2);
  TMesh m;
  double w = nk_real("w", 10, 2000), h = nk_real("h", 10, 2000), xs, ys, xo, yo;
  if (!clip) {
    int k = nk_choose("mesh", ntopo() + 1);
    Topo T = k == ntopo() ? grid(17, 16) : topo(k);
    double s = nk_real("s", 0.01, 50); Vector t = pt("t", -9, 9);
    if (k == ntopo() || nk_choose("placement", 2) == 0) { for (auto &p : T.p) p = Vector(t.x + s * p.x, t.y + s * p.y); }
    else { s = 1; T.p[nk_choose("moved", 2)] = pt("q", -6, -1); }
    load(m, T.p, T.t);
    double x0, x1, y0, y1;
    m.getMeshBoundingBox(x0, x1, y0, y1, false);
    m.getMeshScaleOffset(w, h, xs, ys, xo, yo, false);
    for (auto &p : T.p) { nk::cmp(x0, "<=", p.x, "box holds the mesh"); nk::cmp(p.x, "<=", x1, "box holds the mesh"); nk::cmp(y0, "<=", p.y, "box holds the mesh"); nk::cmp(p.y, "<=", y1, "box holds the mesh"); }
    for (auto &p : T.p) { double x = xs * p.x + xo, y = ys * p.y + yo; nk::cmp(x, ">=", 0, "mesh is inside the picture", 1000); nk::cmp(x, "<=", w, "mesh is inside the picture", 1000); nk::cmp(y, ">=", 0, "mesh is inside the picture", 1000); nk::cmp(y, "<=", h, "mesh is inside the picture", 1000); }
    nk::cmp(xs, ">", 0, "not mirrored"); nk::cmp(ys, ">", 0, "not mirrored"); nk::eq(xs * h, ys * w, "same share of width and height", 1e3);
    nk::eq(xs * (x0 + x1) / 2 + xo, w / 2, "centred", 1e3); nk::eq(ys * (y0 + y1) / 2 + yo, h / 2, "centred", 1e3);
  } else {
    double R = nk_real("R", 0.1, 50);
    m.radius = R;
    load(m, {{0, 0}, {1, 0}, {0, 1}}, {{0, 1, 2}});
    m.getMeshScaleOffset(w, h, xs, ys, xo, yo, true);
    Vector p = pt("p", -50, 50);
    nk_assume(p.x * p.x + p.y * p.y, "<=", R * R);
    double x = xs * p.x + xo, y = ys * p.y + yo;
    nk::cmp(x, ">=", 0, "disc is inside the picture", 1000); nk::cmp(x, "<=", w, "disc is inside the picture", 1000); nk::cmp(y, ">=", 0, "disc is inside the picture", 1000); nk::cmp(y, "<=", h, "disc is inside the picture", 1000);
    nk::cmp(xs * R * 2, ">=", w / 2, "disc fills half of the picture", 1000); nk::eq(xo, w / 2, "disc is centred", 1e3); nk::eq(yo, h / 2, "disc is centred", 1e3);
  }
}
