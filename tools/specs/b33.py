ID="difference_into_the_subtrahend"; PROP="A03"
EDITS=[("algebra/math.cpp","""    void sub(std::vector<double>& result, const std::vector<double>& cv1, const std::vector<double>& cv2) {
        // assert(cv1.size() == cv2.size());
        // assert(cv1.size() == result.size());

        #ifdef NIK_PARALLEL
        for (uint32_t i = 0; i < cv1.size(); i++) {
            result[i] = cv1[i] - cv2[i];
        }
        #else
        // Original non-parallel code goes here
        for (uint32_t i = 0; i < cv1.size(); i++) {
            result[i] = cv1[i] - cv2[i];
        }
        #endif""","""    void sub(std::vector<double>& result, const std::vector<double>& cv1, const std::vector<double>& cv2) {
        // assert(cv1.size() == cv2.size());
        // assert(cv1.size() == result.size());

        #ifdef NIK_PARALLEL
        for (uint32_t i = 0; i < cv1.size(); i++) {
            result[i] = cv1[i] - cv2[i];
        }
        #else
        // Original non-parallel code goes here
        for (uint32_t i = 0; i < cv1.size(); i++) {
            result[i] = cv1[i];
        }
        for (uint32_t i = 0; i < cv1.size(); i++) {
            result[i] -= cv2[i];
        }
        #endif""")]
NEEDS="a difference stored in its own second operand, as the residual of the nonlinear solver is"
BREAKS="such a difference is zero: nonlinear problems count as converged after one iteration"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  std::vector<double> a = {5, 7, 9}, b = {1, 2, 4}, c(3), x;
  sub(c, a, b); if (c != std::vector<double>{4, 5, 5}) bad++;
  x = a; sub(x, x, b); if (x != c) bad++;
  x = b; sub(x, a, x); if (x != c) bad++;
  printf("%d\n", bad);
  return bad != 0;
}
'''
