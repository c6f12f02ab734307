ID="mass_without_depth"; PROP="M05"
EDITS=[("mesh/mesh.hpp","return area * depth * density;","return area * density;")]
NEEDS="a mesh with a depth other than one"
BREAKS="the mass of a figure ignores the depth"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  Mesh<CurrentDensityProp> m;
  m.depth = 0.5;
  m.drawing.drawRectangle(Vector(0, 0), Vector(2, 1));
  m.drawing.drawRegion(Vector(1, 0.5), CurrentDensityProp{3});
  m.mesh(0.1, 33);
  m.center = Vector(0, 0);
  double w = m.computeMass(Vector(1, 0.5), 10);
  if (std::fabs(w - 10) > 1e-6) { printf("%g\n", w); return 1; }
  return 0;
}
'''
