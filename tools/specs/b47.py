OPENCV=1
ID="cell_corners_in_disorder"; PROP="V02"
EDITS=[("mesh/mesh.hpp","atan2(b.y - center.y, b.x - center.x)","atan2(b.y - center.y, b.x - center.y)")]
NEEDS="a node away from the diagonal of the picture"
BREAKS="the corners of a node's cell are joined in the wrong order and parts of the picture stay unpainted"
DEMO=r'''
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  CurrentDensitySimulation s(1);
  s.mesh.drawing.drawRectangle(Vector(0, 0), Vector(4, 4));
  s.mesh.drawing.drawRegion(Vector(1, 1), {1.f});
  s.mesh.mesh(0.2, 25);
  s.mesh.computeEpsilon();
  std::vector<double> v(s.mesh.data.numberofpoints);
  for (int i = 0; i < (int)v.size(); i++) v[i] = s.mesh.data.pointlist[i].x;
  cv::Mat im(400, 400, CV_8UC3, cv::Scalar(255, 255, 255));
  s.mesh.NodeScalarPlotRend(&im, 400, 400, v, false, false, false);
  int white = 0;
  for (int y = 100; y < 300; y++) for (int x = 100; x < 300; x++) { auto p = im.at<cv::Vec3b>(y, x); if (p[0] == 255 && p[1] == 255 && p[2] == 255) white++; }
  printf("%d\n", white);
  return white > 3000;
}
'''
