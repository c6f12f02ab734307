ID="shared_corner_leaves"; PROP="G08"
EDITS=[("geometry/polygon.cpp","            if (!contains(point)) {","            if (!contains(point, false, 1e-9)) {")]
NEEDS="a polygon that touches the one around it"
BREAKS="a polygon with a corner on the boundary of the other one counts as outside"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  nikfemm::Polygon S({{0, 0}, {4, 0}, {4, 4}, {0, 4}}), a({{1, 1}, {2, 1}, {2, 2}}), b({{0, 1}, {2, 1}, {2, 2}}), c({{1, 1}, {5, 1}, {2, 2}});
  bool ok = S.contains(a) && S.contains(b) && S.contains(S) && !S.contains(c);
  return !ok;
}
'''
