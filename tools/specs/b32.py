ID="upright_magnet_not_refined"; PROP="M08"
EDITS=[("magnetostatic/mesh.cpp","if (drawing.region_map[region.second].M != Vector(0, 0)) {","if (drawing.region_map[region.second].M.x != 0) {")]
NEEDS="a magnet magnetised exactly upright"
BREAKS="the refinement of magnets leaves upright magnets out"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  Vector m[3] = {{1, 0}, {0, 1}, {0, 0}};
  for (int i = 0; i < 3; i++) {
    MagnetostaticSimulation s;
    s.mesh.drawing.drawRectangle(Vector(-1, -1), Vector(1, 1));
    s.mesh.drawing.drawRegion(Vector(0, 0), {0, m[i], magnetostatic_materials::air, {}});
    s.mesh.refineMeshAroundMagnets();
    size_t n = s.mesh.drawing.points.size();
    printf("%d: %zu\n", i, n);
    if ((n > 4) != (i < 2)) bad++;
  }
  return bad != 0;
}
'''
