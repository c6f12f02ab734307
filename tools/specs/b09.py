ID="exterior_gets_last_material"; PROP="M04"
EDITS=[("mesh/mesh.hpp","""            data.triangleattributelist[data.numberoftriangles] = default_prop_id;""","""            data.triangleattributelist[data.numberoftriangles] = drawing.region_map.size() - 1;""")]
NEEDS="a drawing that marks an area with the surrounding material before another material"
BREAKS="the exterior gets the material marked last instead of the surrounding one"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  Mesh<CurrentDensityProp> m;
  m.radius = 1; m.center = Vector(0, 0); m.default_prop = CurrentDensityProp{7};
  m.drawing.drawCircle(Vector(0, 0), 1, 24);
  m.drawing.drawRectangle(Vector(-0.25, -0.25), Vector(0.25, 0.25));
  m.drawing.drawRegion(Vector(0.5, 0), CurrentDensityProp{7});
  m.drawing.drawRegion(Vector(0, 0), CurrentDensityProp{3});
  m.mesh(0.05, 33);
  int n = m.data.numberoftriangles;
  m.addKelvinBoundaryConditions(24);
  for (int i = n; i < m.data.numberoftriangles; i++)
    if (m.drawing.getRegionPtrFromId(m.data.triangleattributelist[i])->sigma != 7) { printf("wrong material outside\n"); return 1; }
  return 0;
}
'''
