// Harness interface.  The same harness source is linked with the symbolic runtime
// (rt_sym.cpp) and with the native replay runtime (rt_replay.cpp).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
// a fresh real-valued input in [lo,hi]; the name must be unique on a path
double nk_real(const char *name, double lo, double hi);
// a control choice 0..n-1, every alternative is explored
int nk_choose(const char *name, int n);
// restrict the inputs: a OP b, OP in "<","<=","==","!=",">=",">"
void nk_assume(double a, const char *op, double b);
// drop this path (used after a case split that is outside the claim)
void nk_drop(void);
// obligations
void nk_check(int cond, const char *label);
void nk_cmp(double a, const char *op, double b, double scale, const char *label);
void nk_eq(double a, double b, double scale, const char *label);
void nk_reach(const char *label);
// thorough tier?  tier-dependent bounds
int nk_thorough(void);
// 1 in the symbolic run, 0 in the native replay
int nk_symbolic(void);
void nk_harness(void);
}
namespace nk {
inline std::string nm(const char *b, int i) { return std::string(b) + std::to_string(i); }
inline std::string nm(const char *b, int i, int j) { return std::string(b) + std::to_string(i) + "_" + std::to_string(j); }
inline double real(const std::string &n, double lo, double hi) { return nk_real(n.c_str(), lo, hi); }
inline int choose(const std::string &n, int k) { return nk_choose(n.c_str(), k); }
inline void eq(double a, double b, const std::string &l, double s = 1.0) { nk_eq(a, b, s, l.c_str()); }
inline void cmp(double a, const char *op, double b, const std::string &l, double s = 1.0) { nk_cmp(a, op, b, s, l.c_str()); }
inline void check(bool c, const std::string &l) { nk_check(c, l.c_str()); }
inline void reach(const std::string &l) { nk_reach(l.c_str()); }
} // namespace nk
