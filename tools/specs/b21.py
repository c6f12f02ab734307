ID="torque_about_picked_point"; PROP="S06"
EDITS=[("magnetostatic/simulation.cpp","""        double torque = computeTorqueIntegral(B, assets, p, center);""","""        double torque = computeTorqueIntegral(B, assets, p, p);""")]
NEEDS="force and torque asked together about a point that is not the one the body was picked with"
BREAKS="the torque is taken about the point that picks the body"
DEMO=r'''
#include <nikfemm.hpp>
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  MagnetostaticProp air = {0, {0, 0}, magnetostatic_materials::air, {}}, coil = {1e6, {0, 0}, magnetostatic_materials::air, {}};
  MagnetostaticSimulation s; s.depth = 1;
  s.mesh.drawing.drawRectangle(Vector(-2, -2), Vector(4, 2));
  s.mesh.drawing.drawRectangle(Vector(-1, -1), Vector(1, 1));
  s.mesh.drawing.drawRectangle(Vector(2, -1), Vector(3, 1));
  s.mesh.drawing.drawRegion(Vector(-1.5, 0), air); s.mesh.drawing.drawRegion(Vector(0, 0), coil); s.mesh.drawing.drawRegion(Vector(2.5, 0), coil);
  auto sys = s.generateSystem(false, 0.05, 30, false);
  auto A = s.solve(sys);
  auto B = s.mesh.computeCurl(A);
  Vector p(0.5, 0.5), c(0, 7);
  StressTensor a = s.computeStressIntegral(B, p, c);
  double t = s.computeTorqueIntegral(B, p, c);
  printf("%g %g\n", a.Torque, t);
  return !(std::fabs(a.Torque - t) <= 1e-9 * std::fabs(t));
}
'''
