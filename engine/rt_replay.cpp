// Native replay runtime: reads the solver's assignment and runs the harness on the real build.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <unistd.h>
static std::map<std::string, double> R;
static std::map<std::string, int> C;
static int nfail = 0, nchk = 0, trace = 0;
static FILE *out;
static void load(const char *f) {
  FILE *p = fopen(f, "r");
  if (!p) { fprintf(stderr, "replay: cannot read %s\n", f); _exit(3); }
  char line[4096];
  while (fgets(line, sizeof line, p)) {
    // names may hold spaces: the value is the last word
    char *e = line + strlen(line);
    while (e > line && (e[-1] == '\n' || e[-1] == ' ')) *--e = 0;
    char *sp = strrchr(line, ' ');
    if ((line[0] != 'R' && line[0] != 'C') || line[1] != ' ' || !sp || sp <= line + 2) continue;
    std::string name(line + 2, sp);
    if (line[0] == 'R') R[name] = strtod(sp + 1, 0); else C[name] = atoi(sp + 1);
  }
  fclose(p);
}
extern "C" {
double nk_real(const char *n, double lo, double hi) {
  auto it = R.find(n);
  double v = it == R.end() ? (lo <= 0.37 && 0.37 <= hi ? 0.37 : lo + (hi - lo) * 0.37) : it->second;
  if (trace) fprintf(out, "INPUT %s = %.17g\n", n, v);
  return v;
}
int nk_choose(const char *n, int k) {
  auto it = C.find(n);
  int v = it == C.end() ? 0 : it->second;
  if (trace) fprintf(out, "CHOICE %s = %d of %d\n", n, v, k);
  return v < k ? v : k - 1;
}
static bool rel(double a, const char *op, double b) {
  if (!strcmp(op, "<")) return a < b;
  if (!strcmp(op, "<=")) return a <= b;
  if (!strcmp(op, ">")) return a > b;
  if (!strcmp(op, ">=")) return a >= b;
  if (!strcmp(op, "==")) return a == b;
  return a != b;
}
static void finish(int rc) {
  fprintf(out, "REPLAY checks=%d failed=%d\n", nchk, nfail);
  fflush(out);
  _exit(rc);
}
void nk_drop(void) { finish(nfail ? 1 : 0); }
void nk_assume(double a, const char *op, double b) {
  bool ok = rel(a, op, b);
  // assumptions are met by the solver's exact assignment; allow for the rounding of inputs
  if (!ok && std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b))) ok = true;
  if (!ok) { fprintf(out, "ASSUME not met: %.17g %s %.17g\n", a, op, b); finish(nfail ? 1 : 4); }
}
static void fail(const char *label, double a, double b, const char *op) {
  nfail++;
  fprintf(out, "CHECK FAIL %s :: %.17g %s %.17g\n", label, a, op, b);
  fflush(out);
}
void nk_check(int c, const char *label) { nchk++; if (!c) fail(label, c, 1, "=="); else if (trace) fprintf(out, "ok %s\n", label); }
static double slack() { static double s = getenv("NK_SLACK") ? atof(getenv("NK_SLACK")) : 1e-7; return s; }
void nk_cmp(double a, const char *op, double b, double sc, const char *label) {
  nchk++;
  bool ok = rel(a, op, b);
  if (!ok && std::fabs(a - b) <= slack() * std::fabs(sc)) ok = true;
  if (!ok) fail(label, a, b, op);
  else if (trace) fprintf(out, "ok %s\n", label);
}
void nk_eq(double a, double b, double sc, const char *label) {
  nchk++;
  if (!(std::fabs(a - b) <= slack() * std::fabs(sc))) fail(label, a, b, "==");
  else if (trace) fprintf(out, "VALUE %s %.17g %.17g\n", label, a, b);
}
void nk_reach(const char *) {}
int nk_thorough(void) { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
int nk_symbolic(void) { return 0; }
}
static void on_term() {
  fprintf(out, "CRASH uncaught exception\n");
  try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
  catch (std::exception &e) { fprintf(out, "what: %s\n", e.what()); } catch (...) {}
  fflush(out);
  _exit(70);
}
int main(int argc, char **argv) {
  out = fdopen(dup(1), "w");
  if (!getenv("NK_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) return 3; }
  trace = getenv("NK_TRACE") != nullptr;
  if (argc > 1) load(argv[1]);
  std::set_terminate(on_term);
  nk_harness();
  finish(nfail ? 1 : 0);
}
