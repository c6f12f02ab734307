ID="ray_through_corner"; PROP="G04"
EDITS=[("geometry/polygon.cpp","if (p.y == A.y && B.y >= A.y || p.y == B.y && A.y >= B.y) continue;","if (p.y == A.y && B.y > A.y || p.y == B.y && A.y < B.y) continue;")]
NEEDS="a point exactly level with a corner where both edges lie on the same side"
BREAKS="corners where the boundary turns back are counted once instead of twice or not at all"
DEMO=r'''
#include "geometry/polygon.hpp"
#include <cstdio>
using namespace nikfemm;
int main() {
  Polygon d({{0, 2}, {2, 0}, {0, -2}, {-2, 0}}), t({{0, 0}, {1, 2}, {2, 0}, {3, 2}, {4, 0}, {4, 3}, {0, 3}});
  if (!d.contains(Vector(0, 0)) || !d.contains(Vector(-1, 0)) || d.contains(Vector(-5, 0)) || d.contains(Vector(5, 0)) || d.contains(Vector(-5, 2)) || d.contains(Vector(-5, -2))) { printf("diamond\n"); return 1; }
  if (!t.contains(Vector(0.25, 2)) || t.contains(Vector(-1, 2)) || t.contains(Vector(-1, 0)) || !t.contains(Vector(2, 2))) { printf("teeth\n"); return 1; }
  return 0;
}
'''
