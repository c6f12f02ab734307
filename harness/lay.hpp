// several meshed layers; the mesher is a stub that returns the prepared layers one after the other
#pragma once
#include "fem.hpp"
#include "current_density/multilayer_simulation.hpp"
#include "current_density/simulation.hpp"
static std::vector<Shape> MESHES;                 // results, in order
static std::vector<std::vector<int>> ATTRS;
static std::vector<std::vector<Vector>> ASKED;    // points the mesher was given
void triangulate(char *, triangulateio *in, triangulateio *out, triangulateio *) {
  size_t k = ASKED.size() % MESHES.size();
  ASKED.push_back({});
  for (int i = 0; i < in->numberofpoints; i++) ASKED.back().push_back(Vector(in->pointlist[2 * i], in->pointlist[2 * i + 1]));
  const Shape &S = MESHES[k];
  out->numberofpoints = S.p.size(); out->pointlist = (double *)malloc(16 * S.p.size()); out->pointmarkerlist = (int *)calloc(S.p.size(), 4);
  for (size_t i = 0; i < S.p.size(); i++) { out->pointlist[2 * i] = S.p[i].x; out->pointlist[2 * i + 1] = S.p[i].y; }
  out->numberoftriangles = S.t.size(); out->numberofcorners = 3; out->numberoftriangleattributes = 1; out->trianglelist = (int *)malloc(12 * S.t.size()); out->triangleattributelist = (double *)malloc(8 * S.t.size());
  for (size_t i = 0; i < S.t.size(); i++) { for (int j = 0; j < 3; j++) out->trianglelist[3 * i + j] = S.t[i][j]; out->triangleattributelist[i] = ATTRS[k][i]; }
}
