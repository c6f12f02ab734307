ID="offset_of_wide_pictures"; PROP="M07"
EDITS=[("mesh/mesh.hpp","y_offset = 0.5 * height - 0.5 * (max_y + min_y) * y_scale;","y_offset = 0.5 * height - 0.5 * (max_y + min_y) * x_scale;")]
NEEDS="a picture that is not square of a mesh that is not centred"
BREAKS="the mesh is shifted up or down in the picture"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  int bad = 0;
  CurrentDensitySimulation s(1);
  s.mesh.drawing.drawRectangle(Vector(4, 6), Vector(6, 9));
  s.mesh.drawing.drawRegion(Vector(5, 7), {1.f});
  s.mesh.mesh(0.2, 25);
  for (int k = 0; k < 3; k++) {
    double W = k == 1 ? 900 : 300, H = k == 2 ? 700 : 300, sx, sy, ox, oy;
    s.mesh.getMeshScaleOffset(W, H, sx, sy, ox, oy, false);
    for (int i = 0; i < s.mesh.data.numberofpoints; i++) {
      Vector p = s.mesh.data.pointlist[i];
      double x = ox + p.x * sx, y = oy + p.y * sy;
      if (x < 0 || x > W || y < 0 || y > H) { bad++; printf("%d: %g %g\n", k, x, y); break; }
    }
  }
  return bad != 0;
}
'''
