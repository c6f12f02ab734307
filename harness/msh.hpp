// shared pieces for the mesh harnesses
#pragma once
#include "drw.hpp"
#include <cstring>
#include "triangle/triangle.h"
#include "mesh/mesh.hpp"
typedef Mesh<Tag> TMesh;
typedef std::array<int, 3> Tri;
template <class P> void load(Mesh<P> &m, const std::vector<Vector> &pts, const std::vector<Tri> &tri, const std::vector<int> &attr = {}, const std::vector<int> &mark = {}) {
  auto &d = m.data;
  d.numberofpoints = pts.size(); d.numberoftriangles = tri.size(); d.numberofcorners = 3; d.numberoftriangleattributes = 1; d.numberofpointattributes = 0;
  d.pointlist = (Vector *)malloc(sizeof(Vector) * (pts.size() + 1));
  d.pointmarkerlist = (int *)malloc(sizeof(int) * (pts.size() + 1));
  d.trianglelist = (Elem *)malloc(sizeof(Elem) * (tri.size() + 1));
  d.triangleattributelist = (double *)malloc(sizeof(double) * (tri.size() + 1));
  for (size_t i = 0; i < pts.size(); i++) { d.pointlist[i] = pts[i]; d.pointmarkerlist[i] = i < mark.size() ? mark[i] : 0; }
  for (size_t i = 0; i < tri.size(); i++) { for (int j = 0; j < 3; j++) d.trianglelist[i][j] = tri[i][j]; d.triangleattributelist[i] = i < attr.size() ? attr[i] : 0; }
}
// a small conforming mesh: points, triangles
struct Topo { std::vector<Vector> p; std::vector<Tri> t; };
// a grid of many nodes and triangles with alternating diagonals and uneven columns
inline Topo grid(int nx, int ny) {
  Topo T;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) T.p.push_back(Vector(i + 0.25 * (i * 3 % 4 == 1), j + 0.125 * (i % 3)));
  auto at = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int a = at(i, j), b = at(i + 1, j), c = at(i + 1, j + 1), d = at(i, j + 1);
    if ((i + j) % 2) { T.t.push_back({a, b, c}); T.t.push_back({a, c, d}); } else { T.t.push_back({a, b, d}); T.t.push_back({b, c, d}); }
  }
  return T;
}
inline int ntopo() { return 6; }
inline Topo topo(int k) {
  switch (k) {
  case 0: return {{{0, 0}, {4, 0}, {1, 3}}, {{0, 1, 2}}};
  case 1: return {{{0, 0}, {4, 0}, {4, 3}, {0, 3}}, {{0, 1, 2}, {0, 2, 3}}};
  case 2: return {{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2, 1.5}}, {{4, 0, 1}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}};
  case 3: return {{{0, 0}, {2, 0}, {4, 0}, {0, 2}, {2, 2.5}, {4, 2}, {0, 4}, {2, 4}}, {{0, 1, 4}, {0, 4, 3}, {1, 2, 4}, {2, 5, 4}, {3, 4, 6}, {4, 7, 6}, {4, 5, 7}}};
  case 4: return {{{0, 0}, {3, 0.5}, {2.5, 2}, {1, 3}, {-1, 2.5}, {-2, 0.5}, {-1.5, -1.5}, {1, -2}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 5, 6}, {0, 6, 7}, {0, 7, 1}}};
  default: return {{{1, 1}, {0, 0}, {3, 0}, {3, 3}, {0, 3}, {2, 1.25}, {1.5, 2}}, {{1, 2, 5}, {1, 5, 0}, {2, 3, 5}, {3, 6, 5}, {5, 6, 0}, {3, 4, 6}, {4, 0, 6}, {4, 1, 0}}};
  }
}
// triangle corner orders: rot 0..2 keeps the turn, +3 reverses it
inline Tri turn(Tri t, int k) { Tri r = {t[k % 3], t[(k + 1) % 3], t[(k + 2) % 3]}; if (k >= 3) std::swap(r[1], r[2]); return r; }
