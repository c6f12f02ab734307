ID="nearest_by_sum_of_sides"; PROP="S02"
EDITS=[("current_density/simulation.cpp","""double distance = (mesh.data.pointlist[i].x - p.x) * (mesh.data.pointlist[i].x - p.x) + (mesh.data.pointlist[i].y - p.y) * (mesh.data.pointlist[i].y - p.y);""","""double distance = fabs(mesh.data.pointlist[i].x - p.x) + fabs(mesh.data.pointlist[i].y - p.y);""")]
NEEDS="a point off the nodes whose nearest node lies diagonally and another one lies straight ahead, a little farther"
BREAKS="the voltage is imposed at a node that is not the nearest"
DEMO=r'''
#include <nikfemm.hpp>
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (int k = 0; k < 400; k++) {
    CurrentDensitySimulation s(1.0);
    s.mesh.drawing.drawRectangle(Vector(0, 0), Vector(2, 1)); s.mesh.drawing.drawRegion(Vector(1, 0.5), CurrentDensityProp{7});
    auto sys = s.generateSystem(false, 0.05, 30);
    Vector p(0.05 + (k % 20) * 0.095, 0.03 + (k / 20) * 0.047);
    s.setVoltage(sys, p, 4);
    int best = 0;
    auto &d = s.mesh.data;
    for (int i = 0; i < d.numberofpoints; i++) if (Vector::distance(d.pointlist[i], p) < Vector::distance(d.pointlist[best], p)) best = i;
    if (sys.b[best] != 4) bad++;
  }
  printf("%d\n", bad);
  return bad != 0;
}
'''
