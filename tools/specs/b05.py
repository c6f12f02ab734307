ID="enclosing_circle_drops_point"; PROP="G07"
EDITS=[("geometry/circle.cpp","""        std::swap(points[k], points[n - 1]);
        Circle c""","""        points[k] = points[n - 1];
        Circle c"""),("geometry/circle.cpp","""        R.push_back(p);
        return welzlHelper(points, R, n - 1);""","""        R.push_back(p);
        return welzlHelper(points, R, n > 1 ? n - 2 : 0);""")]
NEEDS="point sets whose smallest circle needs a point that was skipped"
BREAKS="one point is left out of the recursion after a boundary point was found"
DEMO=r'''
#include "geometry/circle.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  for (int s = 0; s < 40; s++) {
    std::vector<Vector> p;
    for (int i = 0; i < 9; i++) p.push_back(Vector(std::cos(0.7 * i + s) * (1 + i % 4), std::sin(1.3 * i + s) * (1 + i % 3)));
    Circle c = Circle::getMinimumEnclosingCircle(p);
    for (auto &q : p) if (Vector::distance(q, c.center) > c.radius + 1e-6) { printf("outside\n"); return 1; }
  }
  return 0;
}
'''
