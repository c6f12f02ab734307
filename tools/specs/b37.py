ID="one_mark_per_material"; PROP="M01"
EDITS=[("mesh/mesh.hpp","in.numberofregions = drawing.regions.size();","in.numberofregions = drawing.region_map.size();"),
("mesh/mesh.hpp","in.regionlist = (TRI_REAL*)malloc(in.numberofregions * 4 * sizeof(TRI_REAL));","in.regionlist = (TRI_REAL*)malloc(drawing.regions.size() * 4 * sizeof(TRI_REAL));")]
NEEDS="two areas marked with the same material"
BREAKS="the mesher gets as many marks as there are materials, the last marks are lost"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (int last = 0; last < 2; last++) {
    CurrentDensitySimulation s(1);
    double m[3] = {1, last ? 3. : 1., last ? 1. : 3.};
    for (int i = 0; i < 3; i++) { s.mesh.drawing.drawRectangle(Vector(2 * i, 0), Vector(2 * i + 1, 1)); s.mesh.drawing.drawRegion(Vector(2 * i + .5, .5), {m[i]}); }
    s.mesh.mesh(0.2, 25);
    for (int t = 0; t < s.mesh.data.numberoftriangles; t++) {
      auto &e = s.mesh.data.trianglelist[t];
      double x = (s.mesh.data.pointlist[e[0]].x + s.mesh.data.pointlist[e[1]].x + s.mesh.data.pointlist[e[2]].x) / 3;
      int i = (int)(x / 2);
      unsigned id = s.mesh.data.triangleattributelist[t];
      if (id != s.mesh.drawing.regions[i].second) bad++;
    }
  }
  printf("%d\n", bad);
  return bad != 0;
}
'''
