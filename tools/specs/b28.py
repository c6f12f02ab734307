ID="centre_on_an_axis"; PROP="S07"
EDITS=[("magnetostatic/simulation.cpp","        mesh.drawing.translate(-mesh.center);","        if (mesh.center.x != 0 && mesh.center.y != 0) mesh.drawing.translate(-mesh.center);")]
NEEDS="a drawing whose centre lies on one axis but not in the origin"
BREAKS="the drawing is not moved to the origin and sticks out of the boundary circle"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (int i = 0; i < 3; i++) {
    MagnetostaticSimulation s;
    Vector c(i == 0 ? 0.5 : 0.3, i == 0 ? 0 : i == 1 ? 0.2 : -0.4);
    s.mesh.drawing.drawRectangle(c - Vector(1, 1), c + Vector(1, 1));
    s.mesh.drawing.drawRegion(c, {1, {0, 0}, magnetostatic_materials::air, {}});
    s.generateSystem(false, 0.2, 25);
    for (auto &p : s.mesh.drawing.points) if (p.norm() > s.mesh.radius * 1.0000001) { bad++; printf("%d: %g outside of %g\n", i, p.norm(), s.mesh.radius); }
    Vector m(0, 0); for (int k = 0; k < 4; k++) m += s.mesh.drawing.points[k];
    if (m.norm() > 1e-9) { bad++; printf("%d: centred at %g %g\n", i, m.x / 4, m.y / 4); }
  }
  return bad != 0;
}
'''
