// Symbolic runtime.  Doubles of the program under test are IEEE doubles while they are
// concrete and NaN-boxed ids of exact real expressions once they depend on a symbolic input.
// Expressions are kept as exact rational functions over GMP rationals; branches on them are
// decided by z3 (QF_NRA), and the process forks when both sides are feasible.
#include "sym.h"
#include <algorithm>
#include <atomic>
#include <tuple>
#include <cassert>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>
using std::map; using std::pair; using std::set; using std::shared_ptr; using std::string; using std::vector;
typedef uint32_t u32;
typedef uint64_t u64;

// ---------------------------------------------------------------- shared statistics
struct Label {
  char name[112];
  std::atomic<u32> used;
  std::atomic<u64> reach, ok, ident, fail, unknown, small;
  std::atomic<u32> cex;
};
struct Shm {
  std::atomic<int> active;
  std::atomic<u64> paths, dropped, cut, forks, branches, implied, q_branch, q_oblig, q_sat, q_unsat, q_unknown, ns, crashes, unsure;
  std::atomic<u64> infeasible, shadow_ok, shadow_bad, ops, maxterms, samples, defs, concr, killed, rootrc, procs, xq, xagree, xdis, wit, ncex;
  std::atomic<u64> lblover;
  double deadline;
  Label lab[1024];
  std::atomic<u32> nfn;
  struct Fn { std::atomic<u32> used; char name[252]; } fn[2048];
};
static Shm *S;
static int MAXW = 8;
static string OUT = ".";
static u64 RL_BRANCH = 2000000, RL_OBL = 30000000;
static int MAXCEX = 3;
static bool thorough = false;
static int XCHK = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Label *lab(const char *n) {
  u64 h = 1469598103934665603ull;
  for (const char *p = n; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  for (u32 i = 0; i < 1024; i++) {
    Label &l = S->lab[(h + i) & 1023];
    for (;;) {
      u32 u = l.used.load();
      if (u == 2) { if (!strncmp(l.name, n, 111)) return &l; break; }
      if (u == 0) {
        u32 z = 0;
        if (l.used.compare_exchange_strong(z, 1)) { strncpy(l.name, n, 111); l.used = 2; return &l; }
      } // else being filled: spin
    }
  }
  S->lblover++;
  return &S->lab[0];
}
[[noreturn]] static void path_exit(int rc);
static void dump_cex(const char *label, const char *kind, const vector<pair<string, mpq_class>> *over, bool weak = false);

// ---------------------------------------------------------------- monomials
struct VH { size_t operator()(const vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h = h * 1000003u ^ x * 2654435761u; return h; } };
static vector<vector<u32>> monos{{}};                       // (var<<10)|exp, sorted by var
static vector<char> mono_red{0};
static std::unordered_map<vector<u32>, u32, VH> mono_id{{{}, 0}};
static std::unordered_map<u64, u32> mono_mul_cache;
enum VK { V_INPUT, V_SQRT, V_SIN, V_COS, V_DEF, V_UNINT };
struct Poly;
typedef shared_ptr<const Poly> PP;
struct Var {
  VK kind; string name; mpq_class lo, hi; bool bounded = true; PP a, b;  // SQRT: a=u ; DEF: b*t=a
  u32 other = 0;                                            // SIN<->COS
  mpq_class val; bool exact = true; double shadow = 0; u32 arg1 = 0, arg2 = 0; int fn = 0;
};
static vector<Var> vars;
static u32 intern_mono(const vector<u32> &v) {
  auto it = mono_id.find(v);
  if (it != mono_id.end()) return it->second;
  u32 id = monos.size();
  monos.push_back(v);
  char r = 0;
  for (u32 x : v) if ((x & 1023) >= 2 && (vars[x >> 10].kind == V_SQRT || vars[x >> 10].kind == V_COS)) r = 1;
  mono_red.push_back(r);
  mono_id[v] = id;
  return id;
}
static u32 mono_mul(u32 a, u32 b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b;
  auto it = mono_mul_cache.find(k);
  if (it != mono_mul_cache.end()) return it->second;
  vector<u32> r;
  auto &x = monos[a]; auto &y = monos[b];
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && (x[i] >> 10) < (y[j] >> 10))) r.push_back(x[i++]);
    else if (i == x.size() || (y[j] >> 10) < (x[i] >> 10)) r.push_back(y[j++]);
    else { r.push_back(x[i] + (y[j] & 1023)); i++; j++; }
  }
  u32 id = intern_mono(r);
  mono_mul_cache[k] = id;
  return id;
}
// ---------------------------------------------------------------- polynomials
typedef vector<pair<u32, mpq_class>> Terms;
struct Poly {
  Terms t; size_t h = 0;
  mutable vector<u32> vs; mutable bool vs_ok = false;
  const vector<u32> &vset() const {
    if (!vs_ok) {
      set<u32> s;
      for (auto &x : t) for (u32 f : monos[x.first]) s.insert(f >> 10);
      vs.assign(s.begin(), s.end()); vs_ok = true;
    }
    return vs;
  }
  bool is_const() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  bool zero() const { return t.empty(); }
};
static PP mkp(Terms &&t) {
  auto p = std::make_shared<Poly>();
  p->t = std::move(t);
  size_t h = p->t.size();
  for (auto &x : p->t) h = h * 1000003u ^ (x.first * 2654435761u + mpz_get_ui(x.second.get_num_mpz_t()) * 31 + mpz_get_ui(x.second.get_den_mpz_t()) * 17 + mpz_sgn(x.second.get_num_mpz_t()));
  p->h = h;
  return p;
}
static PP pconst(const mpq_class &c) { Terms t; if (c != 0) t.push_back({0, c}); return mkp(std::move(t)); }
static PP pvar(u32 v) { return mkp({{intern_mono({v << 10 | 1}), mpq_class(1)}}); }
static PP P0, P1;
static PP padd(const PP &a, const PP &b, const mpq_class &kb) {
  if (b->zero()) return a;
  Terms r; r.reserve(a->t.size() + b->t.size());
  size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j == b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r.push_back(a->t[i++]);
    else if (i == a->t.size() || b->t[j].first < a->t[i].first) { r.push_back({b->t[j].first, b->t[j].second * kb}); j++; }
    else { mpq_class c = a->t[i].second + b->t[j].second * kb; if (c != 0) r.push_back({a->t[i].first, std::move(c)}); i++; j++; }
  }
  return mkp(std::move(r));
}
static PP pscale(const PP &a, const mpq_class &k) {
  if (k == 1) return a;
  if (k == 0) return P0;
  Terms r; r.reserve(a->t.size());
  for (auto &x : a->t) r.push_back({x.first, x.second * k});
  return mkp(std::move(r));
}
static PP pmul(const PP &a, const PP &b);
static PP preduce(const PP &p) {   // s^2 -> u , c^2 -> 1 - s^2
  bool any = false;
  for (auto &x : p->t) if (mono_red[x.first]) { any = true; break; }
  if (!any) return p;
  Terms keep; PP acc = P0;
  for (auto &x : p->t) {
    if (!mono_red[x.first]) { keep.push_back(x); continue; }
    vector<u32> rest; PP mult = pconst(x.second);
    for (u32 f : vector<u32>(monos[x.first])) {
      u32 v = f >> 10, e = f & 1023;
      if (e >= 2 && (vars[v].kind == V_SQRT || vars[v].kind == V_COS)) {
        PP u = vars[v].kind == V_SQRT ? vars[v].a : padd(P1, mkp({{intern_mono({vars[v].other << 10 | 2}), mpq_class(1)}}), -1);
        for (u32 k = 0; k < e / 2; k++) mult = pmul(mult, u);
        if (e & 1) rest.push_back(v << 10 | 1);
      } else rest.push_back(f);
    }
    acc = padd(acc, pmul(mult, mkp({{intern_mono(rest), mpq_class(1)}})), 1);
  }
  return preduce(padd(mkp(std::move(keep)), acc, 1));
}
static PP pmul(const PP &a, const PP &b) {
  if (a->zero() || b->zero()) return P0;
  if (a->is_const()) return pscale(b, a->t[0].second);
  if (b->is_const()) return pscale(a, b->t[0].second);
  std::unordered_map<u32, mpq_class> acc;
  acc.reserve(a->t.size() * b->t.size());
  mpq_class c;
  for (auto &x : a->t) for (auto &y : b->t) { c = x.second * y.second; acc[mono_mul(x.first, y.first)] += c; }
  Terms r; r.reserve(acc.size());
  for (auto &x : acc) if (x.second != 0) r.push_back({x.first, std::move(x.second)});
  std::sort(r.begin(), r.end(), [](auto &p, auto &q) { return p.first < q.first; });
  u64 mt = r.size(), cur = S->maxterms.load();
  while (mt > cur && !S->maxterms.compare_exchange_weak(cur, mt)) {}
  return preduce(mkp(std::move(r)));
}
static bool peq(const PP &a, const PP &b) {
  if (a == b) return true;
  if (a->h != b->h || a->t.size() != b->t.size()) return false;
  for (size_t i = 0; i < a->t.size(); i++) if (a->t[i].first != b->t[i].first || a->t[i].second != b->t[i].second) return false;
  return true;
}
// a monomial order for division: lexicographic on (var ascending, exponent)
static bool mono_less(u32 a, u32 b) {
  auto &x = monos[a]; auto &y = monos[b];
  size_t i = 0;
  for (;; i++) {
    if (i == x.size()) return i < y.size();
    if (i == y.size()) return false;
    u32 vx = x[i] >> 10, vy = y[i] >> 10;
    if (vx != vy) return vx > vy;       // smaller variable index dominates
    u32 ex = x[i] & 1023, ey = y[i] & 1023;
    if (ex != ey) return ex < ey;
  }
}
struct ML { bool operator()(u32 a, u32 b) const { return mono_less(a, b); } };
static bool mono_div(u32 a, u32 b, u32 &q) {
  auto &x = monos[a]; auto &y = monos[b];
  vector<u32> r; size_t j = 0;
  for (size_t i = 0; i < x.size(); i++) {
    if (j < y.size() && (y[j] >> 10) == (x[i] >> 10)) {
      u32 e = x[i] & 1023, f = y[j] & 1023;
      if (f > e) return false;
      if (e > f) r.push_back((x[i] & ~1023u) | (e - f));
      j++;
    } else if (j < y.size() && (y[j] >> 10) < (x[i] >> 10)) return false;
    else r.push_back(x[i]);
  }
  if (j < y.size()) return false;
  q = intern_mono(r);
  return true;
}
static PP pdivexact(const PP &a, const PP &b) {   // nullptr when not exact
  if (a->zero()) return P0;
  if (b->is_const()) return pscale(a, 1 / b->t[0].second);
  {
    auto &va = a->vset(); 
    for (u32 v : b->vset()) if (!std::binary_search(va.begin(), va.end(), v)) return nullptr;
  }
  if (a->t.size() > 4000) return nullptr;
  map<u32, mpq_class, ML> rem;
  for (auto &x : a->t) rem[x.first] = x.second;
  u32 lb = b->t[0].first; mpq_class cb = b->t[0].second;
  for (auto &x : b->t) if (mono_less(lb, x.first)) { lb = x.first; cb = x.second; }
  Terms q; size_t steps = 0;
  while (!rem.empty()) {
    auto it = std::prev(rem.end());
    u32 qm;
    if (!mono_div(it->first, lb, qm)) return nullptr;
    mpq_class qc = it->second / cb;
    q.push_back({qm, qc});
    if (++steps > 20000) return nullptr;
    for (auto &x : b->t) {
      u32 m = mono_mul(qm, x.first);
      if (mono_red[m]) return nullptr;
      auto f = rem.find(m);
      if (f == rem.end()) rem[m] = -qc * x.second;
      else { f->second -= qc * x.second; if (f->second == 0) rem.erase(f); }
    }
  }
  std::sort(q.begin(), q.end(), [](auto &p, auto &r) { return p.first < r.first; });
  return mkp(std::move(q));
}
static mpq_class lead(const PP &p) { return p->t.back().second; }
static PP monic(const PP &p, mpq_class &c) { c = lead(p); return c == 1 ? p : pscale(p, 1 / c); }

// ---------------------------------------------------------------- expressions
struct PH { size_t operator()(const PP &p) const { return p->h; } };
struct PE { bool operator()(const PP &a, const PP &b) const { return peq(a, b); } };
static vector<PP> facs;                                     // interned denominator factors (monic)
static std::unordered_map<PP, u32, PH, PE> fac_id;
typedef vector<pair<u32, u32>> Den;
struct Ex { PP n; Den d; double sh; };
static vector<Ex> ex;
static const u64 TAG = 0xFFFCA5A500000000ull;
static inline bool symb(double d) { u64 b; memcpy(&b, &d, 8); return (b & 0xFFFFFFFF00000000ull) == TAG; }
static inline u32 eid(double d) { u64 b; memcpy(&b, &d, 8); return (u32)b; }
static inline double box(u32 id) { u64 b = TAG | id; double d; memcpy(&d, &b, 8); return d; }
static u32 fac_intern(const PP &m) {
  auto it = fac_id.find(m);
  if (it != fac_id.end()) return it->second;
  u32 id = facs.size(); facs.push_back(m); fac_id[m] = id; return id;
}
static size_t TERMCAP = 6000;
static u32 newvar(VK k, const string &n, mpq_class lo, mpq_class hi);
static mpq_class model_val(const PP &p);
static double mk(PP n, Den d, double sh) {
  if (n->zero()) return 0.0;
  // cancel denominator factors
  for (size_t i = 0; i < d.size();) {
    while (d[i].second) { PP q = pdivexact(n, facs[d[i].first]); if (!q) break; n = q; d[i].second--; }
    if (!d[i].second) d.erase(d.begin() + i); else i++;
  }
  if (d.empty() && n->is_const()) {
    const mpq_class &c = n->t[0].second;
    double v = c.get_d();
    if (mpq_class(v) == c) return v;
  }
  if (n->t.size() > TERMCAP) {     // name it
    u32 v = newvar(V_DEF, "def", 0, 0);
    vars[v].bounded = false; vars[v].a = n; vars[v].b = P1; vars[v].shadow = sh;
    vars[v].val = model_val(n); vars[v].exact = true;
    for (u32 w : n->vset()) if (!vars[w].exact) vars[v].exact = false;
    S->defs++;
    n = pvar(v);
  }
  ex.push_back({n, d, sh});
  return box(ex.size() - 1);
}
static Ex get(double d) {
  if (symb(d)) return ex[eid(d)];
  return {pconst(mpq_class(d)), {}, d};
}
static double shd(double d) { return symb(d) ? ex[eid(d)].sh : d; }
static PP fpow(u32 f, u32 e) { PP r = P1; while (e--) r = pmul(r, facs[f]); return r; }
static double addx(double a, double b, int sg) {
  Ex x = get(a), y = get(b);
  double sh = sg > 0 ? x.sh + y.sh : x.sh - y.sh;
  if (x.d == y.d) return mk(padd(x.n, y.n, sg), x.d, sh);
  Den d; PP mx = P1, my = P1;
  size_t i = 0, j = 0;
  while (i < x.d.size() || j < y.d.size()) {
    if (j == y.d.size() || (i < x.d.size() && x.d[i].first < y.d[j].first)) { d.push_back(x.d[i]); my = pmul(my, fpow(x.d[i].first, x.d[i].second)); i++; }
    else if (i == x.d.size() || y.d[j].first < x.d[i].first) { d.push_back(y.d[j]); mx = pmul(mx, fpow(y.d[j].first, y.d[j].second)); j++; }
    else {
      u32 e = x.d[i].second, f = y.d[j].second;
      d.push_back({x.d[i].first, std::max(e, f)});
      if (e < f) mx = pmul(mx, fpow(x.d[i].first, f - e));
      if (f < e) my = pmul(my, fpow(x.d[i].first, e - f));
      i++; j++;
    }
  }
  return mk(padd(pmul(x.n, mx), pmul(y.n, my), sg), d, sh);
}
static double mulx(double a, double b) {
  Ex x = get(a), y = get(b);
  // cross-cancel before multiplying
  PP xn = x.n, yn = y.n; Den xd = x.d, yd = y.d;
  for (auto &f : xd) while (f.second) { PP q = pdivexact(yn, facs[f.first]); if (!q) break; yn = q; f.second--; }
  for (auto &f : yd) while (f.second) { PP q = pdivexact(xn, facs[f.first]); if (!q) break; xn = q; f.second--; }
  Den d; size_t i = 0, j = 0;
  while (i < xd.size() || j < yd.size()) {
    if (j == yd.size() || (i < xd.size() && xd[i].first < yd[j].first)) { if (xd[i].second) d.push_back(xd[i]); i++; }
    else if (i == xd.size() || yd[j].first < xd[i].first) { if (yd[j].second) d.push_back(yd[j]); j++; }
    else { if (xd[i].second + yd[j].second) d.push_back({xd[i].first, xd[i].second + yd[j].second}); i++; j++; }
  }
  return mk(pmul(xn, yn), d, x.sh * y.sh);
}
// the reciprocal of a (nonzero) expression
static double invx(double b) {
  Ex y = get(b);
  PP n = P1; Den d;
  for (auto &f : y.d) n = pmul(n, fpow(f.first, f.second));
  // factor y.n by known factors
  PP r = y.n;
  map<u32, u32> dd;
  if (r->t.size() <= 60)
    for (u32 f = 0; f < facs.size() && !r->is_const(); f++) {
      bool known = false;
      for (auto &g : y.d) if (g.first == f) known = true;
      if (known) continue;
      while (!r->is_const()) { PP q = pdivexact(r, facs[f]); if (!q) break; r = q; dd[f]++; }
    }
  // rationalise a pure  k*s  (s a square root)
  mpq_class c(1);
  if (!r->is_const()) {
    if (r->t.size() == 1) {
      // single monomial: split into variables
      c = r->t[0].second;
      for (u32 f : vector<u32>(monos[r->t[0].first])) {
        u32 v = f >> 10, e = f & 1023;
        if (vars[v].kind == V_SQRT && e == 1) {
          n = pmul(n, pvar(v));
          mpq_class c2; PP m = vars[v].a->is_const() ? nullptr : monic(vars[v].a, c2);
          if (!m) c *= vars[v].a->t[0].second; else { c *= c2; dd[fac_intern(m)]++; }
        } else dd[fac_intern(pvar(v))] += e;
      }
    } else { PP m = monic(r, c); dd[fac_intern(m)]++; }
  } else c = r->t[0].second;
  for (auto &x : dd) d.push_back(x);
  return mk(pscale(n, 1 / c), d, 1 / y.sh);
}

// ---------------------------------------------------------------- constraints and z3
enum { NEG = 1, ZER = 2, POS = 4 };
struct Con { PP p; int mask; };            // sign(p) in mask
static vector<Con> pc;
static std::unordered_map<PP, int, PH, PE> facts;           // monic -> allowed signs
static bool model_ok = true, unsure_path = false;
static int flipmask(int m) { return (m & ZER) | (m & NEG ? POS : 0) | (m & POS ? NEG : 0); }
static Z3_context Z;
static Z3_sort RS;
static vector<Z3_ast> zvar;
static std::unordered_map<const Poly *, Z3_ast> zpoly;
static vector<PP> zkeep;
static void zerr(Z3_context c, Z3_error_code e) { (void)c; (void)e; }
static void zinit() {
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(Z, zerr);
  RS = Z3_mk_real_sort(Z);
}
static Z3_ast zv(u32 v) {
  while (zvar.size() <= v) { string n = "v" + std::to_string(zvar.size()); zvar.push_back(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), RS)); }
  return zvar[v];
}
static Z3_ast znum(const mpq_class &c) { return Z3_mk_numeral(Z, c.get_str().c_str(), RS); }
static Z3_ast zp(const PP &p) {
  auto it = zpoly.find(p.get());
  if (it != zpoly.end()) return it->second;
  vector<Z3_ast> s;
  for (auto &x : p->t) {
    vector<Z3_ast> f;
    if (x.second != 1 || x.first == 0) f.push_back(znum(x.second));
    for (u32 m : monos[x.first]) for (u32 e = 0; e < (m & 1023); e++) f.push_back(zv(m >> 10));
    s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(Z, f.size(), f.data()));
  }
  Z3_ast r = s.empty() ? znum(0) : s.size() == 1 ? s[0] : Z3_mk_add(Z, s.size(), s.data());
  zpoly[p.get()] = r; zkeep.push_back(p);
  return r;
}
static Z3_ast zcon(const Con &c) {
  Z3_ast a = zp(c.p), z = znum(0);
  switch (c.mask) {
  case NEG: return Z3_mk_lt(Z, a, z);
  case ZER: return Z3_mk_eq(Z, a, z);
  case POS: return Z3_mk_gt(Z, a, z);
  case NEG | ZER: return Z3_mk_le(Z, a, z);
  case POS | ZER: return Z3_mk_ge(Z, a, z);
  case NEG | POS: return Z3_mk_not(Z, Z3_mk_eq(Z, a, z));
  case 0: return Z3_mk_false(Z);
  }
  return Z3_mk_true(Z);
}
// all constraints connected with the variables of q
static void slice(const vector<Con> &q, set<u32> &vs, vector<const Con *> &cs) {
  vector<u32> todo;
  auto addv = [&](u32 v) { if (vs.insert(v).second) todo.push_back(v); };
  for (auto &c : q) for (u32 v : c.p->vset()) addv(v);
  vector<char> in(pc.size(), 0);
  std::unordered_map<u32, vector<u32>> occ;
  for (u32 i = 0; i < pc.size(); i++) for (u32 v : pc[i].p->vset()) occ[v].push_back(i);
  // a constrained defined variable (root, quotient, sine) also constrains the variables of its definition
  std::unordered_map<u32, vector<u32>> users;
  {
    set<u32> need; vector<u32> st;
    auto addn = [&](u32 v) { if (need.insert(v).second) st.push_back(v); };
    for (auto &o : occ) addn(o.first);
    for (auto &c : q) for (u32 v : c.p->vset()) addn(v);
    while (!st.empty()) {
      u32 v = st.back(); st.pop_back();
      auto link = [&](u32 w) { users[w].push_back(v); addn(w); };
      if (vars[v].a) for (u32 w : vars[v].a->vset()) link(w);
      if (vars[v].b) for (u32 w : vars[v].b->vset()) link(w);
      if (vars[v].kind == V_SIN || vars[v].kind == V_COS) link(vars[v].other);
    }
  }
  while (!todo.empty()) {
    u32 v = todo.back(); todo.pop_back();
    if (vars[v].a) for (u32 w : vars[v].a->vset()) addv(w);
    if (vars[v].b) for (u32 w : vars[v].b->vset()) addv(w);
    if (vars[v].kind == V_SIN || vars[v].kind == V_COS) addv(vars[v].other);
    for (u32 u : users[v]) addv(u);
    for (u32 i : occ[v]) if (!in[i]) { in[i] = 1; cs.push_back(&pc[i]); for (u32 w : pc[i].p->vset()) addv(w); }
  }
}
static void zdefs(const set<u32> &vs, vector<Z3_ast> &out) {
  for (u32 v : vs) {
    Var &x = vars[v];
    Z3_ast a = zv(v);
    if (x.kind == V_SQRT) {
      out.push_back(Z3_mk_ge(Z, a, znum(0)));
      Z3_ast m[2] = {a, a};
      out.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, m), zp(x.a)));
    } else if (x.kind == V_SIN) {
      Z3_ast c = zv(x.other); Z3_ast m[2] = {a, a}, n[2] = {c, c}; Z3_ast s[2] = {Z3_mk_mul(Z, 2, m), Z3_mk_mul(Z, 2, n)};
      out.push_back(Z3_mk_eq(Z, Z3_mk_add(Z, 2, s), znum(1)));
    } else if (x.kind == V_DEF) {
      Z3_ast m[2] = {a, zp(x.b)};
      out.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, m), zp(x.a)));
    }
    if (x.bounded && x.kind != V_SQRT) {
      if (x.lo == x.hi) out.push_back(Z3_mk_eq(Z, a, znum(x.lo)));
      else { out.push_back(Z3_mk_ge(Z, a, znum(x.lo))); out.push_back(Z3_mk_le(Z, a, znum(x.hi))); }
    }
  }
}
struct Model { vector<std::tuple<u32, mpq_class, bool>> v; };
static mpq_class parse_q(const char *s) { // z3 numeral strings: n, n/d, -n, decimals with ?
  string t(s);
  if (!t.empty() && t.back() == '?') t.pop_back();
  bool neg = false; string u;
  for (char c : t) { if (c == '-') neg = true; else if (c != '(' && c != ')' && c != ' ') u += c; }
  mpq_class r;
  size_t dot = u.find('.');
  if (dot != string::npos) {
    string fr = u.substr(dot + 1), in = u.substr(0, dot);
    mpz_class den; mpz_ui_pow_ui(den.get_mpz_t(), 10, fr.size());
    r = mpq_class(mpz_class(in + fr), den);
  } else r = mpq_class(u);
  r.canonicalize();
  return neg ? mpq_class(-r) : r;
}
// wall-clock backstop for a query whose arithmetic the resource limit does not see
static double TL_BRANCH = 6, TL_OBL = 20;
static volatile sig_atomic_t in_query = 0;
static volatile u64 progress_n = 0;
static void on_alarm(int) { if (in_query) Z3_interrupt(Z); }
static void arm(double s) {
  itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  it.it_interval.tv_usec = s > 0 ? 250000 : 0;
  setitimer(ITIMER_REAL, &it, 0);
}
static int run_solver(const vector<Z3_ast> &as, u64 rl, const set<u32> *vs, Model *mo, bool linear, const char *tac = nullptr) {
  double t0 = now();
  Z3_solver s;
  Z3_tactic tt = nullptr;
  if (tac) { tt = Z3_mk_tactic(Z, tac); Z3_tactic_inc_ref(Z, tt); s = Z3_mk_solver_from_tactic(Z, tt); }
  else if (linear) s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LRA"));
  else s = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)std::min<u64>(rl, 4000000000u));
  Z3_solver_set_params(Z, s, p);
  for (Z3_ast a : as) Z3_solver_assert(Z, s, a);
  in_query = 1; arm(rl > RL_BRANCH ? TL_OBL : TL_BRANCH);
  Z3_lbool r = Z3_solver_check(Z, s);
  arm(0); in_query = 0;
  if (r == Z3_L_TRUE && mo) {
    Z3_model m = Z3_solver_get_model(Z, s);
    Z3_model_inc_ref(Z, m);
    for (u32 v : *vs) {
      Z3_ast val;
      if (!Z3_model_eval(Z, m, zv(v), true, &val)) continue;
      if (Z3_is_algebraic_number(Z, val)) {
        Z3_ast lo = Z3_get_algebraic_number_lower(Z, val, 60);
        mo->v.push_back({v, parse_q(Z3_get_numeral_string(Z, lo)), false});
      } else if (Z3_is_numeral_ast(Z, val)) mo->v.push_back({v, parse_q(Z3_get_numeral_string(Z, val)), true});
    }
    Z3_model_dec_ref(Z, m);
  }
  S->ns += (u64)((now() - t0) * 1e9);
  static const char *dump = getenv("NK_DUMP");
  if (dump && now() - t0 > atof(dump)) {
    static int k = 0; char fn[128]; snprintf(fn, sizeof fn, "%s/q_%d_%d_%d_%d.smt2", OUT.c_str(), (int)((now() - t0) * 1000), (int)r, (int)getpid(), k++);
    FILE *f = fopen(fn, "w"); if (f) { fputs(Z3_solver_to_string(Z, s), f); fputs("(check-sat)\n", f); fclose(f); }
  }
  Z3_params_dec_ref(Z, p);
  Z3_solver_dec_ref(Z, s);
  if (tt) Z3_tactic_dec_ref(Z, tt);
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
}
// portfolio: the general SMT core, then nlsat, then the SMT core with the whole budget
static int solve(const vector<Z3_ast> &as, u64 rl, const set<u32> *vs, Model *mo, bool lin) {
  if (lin) return run_solver(as, rl, vs, mo, true);
  int r = run_solver(as, std::min<u64>(rl, 400000), vs, mo, false);
  if (!r) r = run_solver(as, rl / 6, vs, mo, false, "qfnra-nlsat");
  if (!r && rl > 400000) r = run_solver(as, rl, vs, mo, false);
  return r;
}
static bool is_linear(const PP &p) { for (auto &x : p->t) { u32 d = 0; for (u32 f : monos[x.first]) d += f & 1023; if (d > 1) return false; } return true; }
// 1 sat, -1 unsat, 0 unknown
static int query(const vector<Con> &q, u64 rl, Model *mo, bool oblig) {
  progress_n++;
  set<u32> vs; vector<const Con *> cs;
  slice(q, vs, cs);
  vector<Z3_ast> as;
  bool lin = true;
  for (u32 v : vs) if (vars[v].kind == V_SQRT || vars[v].kind == V_SIN || vars[v].kind == V_DEF) lin = false;
  zdefs(vs, as);
  for (auto c : cs) { as.push_back(zcon(*c)); lin = lin && is_linear(c->p); }
  for (auto &c : q) { as.push_back(zcon(c)); lin = lin && is_linear(c.p); }
  (oblig ? S->q_oblig : S->q_branch)++;
  int r = solve(as, rl, &vs, mo, lin);
  (r > 0 ? S->q_sat : r < 0 ? S->q_unsat : S->q_unknown)++;
  if (r < 0 && oblig && XCHK) {
    // cross-check by a second, differently configured run: nlsat with another variable order / the linear core
    S->xq++;
    int r2 = run_solver(as, rl * 4, nullptr, nullptr, lin, lin ? "smt" : "qfnra-nlsat");
    if (r2 < 0) S->xagree++;
    if (r2 > 0) S->xdis++;
  }
  return r;
}
static mpq_class approx_sqrt(const mpq_class &u, bool &exact);
static void set_model(const Model &m) {
  set<u32> in;
  for (auto &[v, q, e] : m.v) { vars[v].val = q; vars[v].exact = e; in.insert(v); }
  // defined variables outside the slice follow their definitions
  for (u32 v = 0; v < vars.size(); v++) {
    Var &x = vars[v];
    if ((x.kind != V_SQRT && x.kind != V_DEF) || in.count(v)) continue;
    bool ex = true, e2 = true;
    for (u32 w : x.a->vset()) if (!vars[w].exact) ex = false;
    x.val = x.kind == V_SQRT ? approx_sqrt(model_val(x.a), e2) : model_val(x.a);
    x.exact = ex && e2;
  }
}
// sign of p in the current model: -1,0,1 ; 2 ambiguous
static int model_sign(const PP &p) {
  if (!model_ok) return 2;
  mpq_class s = 0, ab = 0; bool exact = true;
  for (u32 v : p->vset()) if (!vars[v].exact) exact = false;
  for (auto &x : p->t) {
    mpq_class t = x.second;
    for (u32 m : monos[x.first]) for (u32 e = 0; e < (m & 1023); e++) t *= vars[m >> 10].val;
    s += t; ab += abs(t);
  }
  if (!exact) {
    static const mpq_class eps(mpz_class(1), mpz_class("1000000000000000000000000000000"));
    if (abs(s) <= eps * (ab + 1)) return 2;
  }
  return sgn(s);
}
static mpq_class model_val(const PP &p) {
  mpq_class s = 0;
  for (auto &x : p->t) { mpq_class t = x.second; for (u32 m : monos[x.first]) for (u32 e = 0; e < (m & 1023); e++) t *= vars[m >> 10].val; s += t; }
  return s;
}
static u64 rs = 88172645463325252ull;
static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static mpq_class approx_sqrt(const mpq_class &u, bool &exact) {
  if (u <= 0) { exact = u == 0; return 0; }
  if (mpz_perfect_square_p(u.get_num_mpz_t()) && mpz_perfect_square_p(u.get_den_mpz_t())) {
    exact = true; return mpq_class(sqrt(u.get_num()), sqrt(u.get_den()));
  }
  exact = false;
  mpf_class f(u, 320); f = sqrt(f);
  return mpq_class(f);
}
static double drop_prec(double lo, double hi, double t) { return lo + (hi - lo) * t; }
static u32 newvar(VK k, const string &n, mpq_class lo, mpq_class hi) {
  Var v; v.kind = k; v.name = n; v.lo = lo; v.hi = hi;
  vars.push_back(v);
  return vars.size() - 1;
}
static vector<pair<string, int>> choices;
static void add_con(const PP &p, int mask) { pc.push_back({p, mask}); }
static int &fact(const PP &m) { auto it = facts.find(m); if (it == facts.end()) it = facts.emplace(m, 7).first; return it->second; }
// intervals on polynomials without their constant term: facts about p+c and p+c' inform each other
struct Ival { bool hl = false, hh = false, sl = false, sh = false; mpq_class lo, hi; bool init = false; };
static std::unordered_map<PP, Ival, PH, PE> ivals;
static mpq_class split_const(const PP &p, PP &base) {
  if (p->t.size() < 2 || p->t[0].first != 0) { base = p; return 0; }
  base = mkp(Terms(p->t.begin() + 1, p->t.end()));
  return p->t[0].second;
}
static void ival_init(const PP &b, Ival &iv) {     // from the boxes of the variables
  iv.init = true;
  if (b->t.size() > 4000) return;
  mpq_class lo = 0, hi = 0;
  for (auto &x : b->t) {
    mpq_class l = 1, h = 1;
    for (u32 k : monos[x.first]) {
      Var &v = vars[k >> 10]; u32 e = k & 1023;
      mpq_class vlo = v.lo, vhi = v.hi;
      if (v.kind == V_SQRT) {              // 0 <= sqrt(a) <= max(1, a)
        Ival s;
        ival_init(v.a, s);
        if (!s.hh) return;
        vlo = 0; vhi = s.hi > 1 ? s.hi : mpq_class(1);
      } else if (!v.bounded) return;
      mpq_class a = 1, c = 1;
      if (e & 1) { for (u32 i = 0; i < e; i++) { a *= vlo; c *= vhi; } }
      else {
        mpq_class m1 = abs(vlo), m2 = abs(vhi), mx = m1 > m2 ? m1 : m2, mn = (vlo <= 0 && vhi >= 0) ? mpq_class(0) : (m1 < m2 ? m1 : m2);
        for (u32 i = 0; i < e; i++) { a *= mn; c *= mx; }
      }
      mpq_class p[4] = {l * a, l * c, h * a, h * c};
      l = h = p[0];
      for (auto &q : p) { if (q < l) l = q; if (q > h) h = q; }
    }
    if (x.second > 0) { lo += x.second * l; hi += x.second * h; } else { lo += x.second * h; hi += x.second * l; }
  }
  iv.hl = iv.hh = true; iv.lo = lo; iv.hi = hi;
}
static int ival_mask(const PP &p) {
  PP b; mpq_class c = split_const(p, b);
  Ival &iv = ivals[b];
  if (!iv.init) ival_init(b, iv);
  int m = 7;
  // sign of v + c, v in the interval
  if (iv.hl) { mpq_class z = iv.lo + c; if (z > 0) m &= POS; else if (z == 0) m &= iv.sl ? POS : (POS | ZER); }
  if (iv.hh) { mpq_class z = iv.hi + c; if (z < 0) m &= NEG; else if (z == 0) m &= iv.sh ? NEG : (NEG | ZER); }
  return m;
}
static void learn(const PP &p, int mask) {
  PP b; mpq_class c = split_const(p, b);
  Ival &iv = ivals[b];
  if (!iv.init) ival_init(b, iv);
  mpq_class t = -c;
  if (!(mask & NEG)) { bool st = !(mask & ZER); if (!iv.hl || t > iv.lo || (t == iv.lo && st)) { iv.hl = true; iv.lo = t; iv.sl = st; } }
  if (!(mask & POS)) { bool st = !(mask & ZER); if (!iv.hh || t < iv.hi || (t == iv.hi && st)) { iv.hh = true; iv.hi = t; iv.sh = st; } }
}
static void setfact(const PP &p, int mask) { fact(p) = mask; learn(p, mask); }
static void quick_sign0(const PP &m, int &f);
static void quick_sign(const PP &m, int &f) {
  quick_sign0(m, f);
  int k = f & ival_mask(m);
  if (k) f = k;
}
static void quick_sign0(const PP &m, int &f) {
  // all terms of one sign with even exponents or nonnegative variables
  bool pos = true, neg = true, strict = false;
  for (auto &x : m->t) {
    bool nn = true;
    for (u32 k : monos[x.first]) {
      Var &v = vars[k >> 10];
      if ((k & 1) == 0) continue;
      if (v.kind == V_SQRT || (v.bounded && v.lo >= 0)) continue;
      nn = false;
    }
    if (!nn) { pos = neg = false; break; }
    if (x.second > 0) neg = false; else pos = false;
    if (x.first == 0) strict = true;
    else {
      bool st = true;
      for (u32 k : monos[x.first]) { Var &v = vars[k >> 10]; if (!(v.bounded && v.kind != V_SQRT && (v.lo > 0 || v.hi < 0))) st = false; }
      if (st) strict = true;
    }
  }
  if (pos) f &= strict ? POS : (POS | ZER);
  if (neg) f &= strict ? NEG : (NEG | ZER);
}
static void sig_child_wait(pid_t c) {
  int st;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
}
static vector<pid_t> kids;
static void reap(bool block) {
  for (size_t i = 0; i < kids.size();) {
    int st; pid_t r = waitpid(kids[i], &st, block ? 0 : WNOHANG);
    if (r == kids[i] || (r < 0 && errno == ECHILD)) { kids.erase(kids.begin() + i); } else i++;
  }
}
static void arm_tick();
// returns true in the child
static bool do_fork() {
  S->forks++;
  fflush(stderr);
  bool conc = S->active.fetch_add(1) < MAXW;
  if (!conc) S->active.fetch_sub(1);
  pid_t c = fork();
  if (c < 0) { perror("fork"); S->cut++; return false; }
  if (c == 0) {
    kids.clear(); S->procs++; arm_tick();
    static bool mine; mine = conc; extern bool own_slot; own_slot = conc;
    rs ^= (u64)getpid() * 0x9E3779B97F4A7C15ull;
    return true;
  }
  if (conc) { kids.push_back(c); reap(false); }
  else sig_child_wait(c);
  return false;
}
bool own_slot = false;
static bool timed_out() { return now() > S->deadline; }
// decide whether sign(p) is in rel; forks when both are possible
static bool decide(const PP &p0, int rel) {
  if (p0->zero()) return rel & ZER;
  if (p0->is_const()) return rel & (p0->t[0].second > 0 ? POS : NEG);
  S->branches++;
  mpq_class c; PP p = monic(p0, c);
  if (c < 0) rel = flipmask(rel);
  int &f0 = fact(p);
  if (f0 != NEG && f0 != ZER && f0 != POS) quick_sign(p, f0);
  if (!(f0 & ~rel)) { S->implied++; return true; }
  if (!(f0 & rel)) { S->implied++; return false; }
  int f = f0;
  int ms = model_sign(p);
  if (ms != 2) {
    int mb = ms < 0 ? NEG : ms > 0 ? POS : ZER;
    bool tm = mb & rel;
    int other = f & (tm ? ~rel : rel) & 7;
    Model m;
    int r = query({{p, other}}, RL_BRANCH, &m, false);
    if (r < 0) { setfact(p, fact(p) & ~other); S->implied++; return tm; }
    if (timed_out()) { S->cut++; add_con(p, f & ~other); setfact(p, f & ~other); return tm; }
    if (do_fork()) {
      if (r == 0) { unsure_path = true; model_ok = false; S->unsure++; } else set_model(m);
      add_con(p, other); setfact(p, other);
      return !tm;
    }
    add_con(p, f & ~other); setfact(p, f & ~other);
    return tm;
  }
  Model mt, mf;
  int rt = query({{p, f & rel}}, RL_BRANCH, &mt, false);
  if (rt < 0) { setfact(p, fact(p) & ~rel); S->implied++; return false; }
  int rf = query({{p, f & ~rel & 7}}, RL_BRANCH, &mf, false);
  if (rf < 0) { setfact(p, fact(p) & rel); S->implied++; if (rt > 0 && !model_ok) { } return true; }
  if (timed_out()) {
    S->cut++;
    if (rt > 0) set_model(mt);
    add_con(p, f & rel); setfact(p, f & rel); return true;
  }
  if (do_fork()) {
    if (rf == 0) { unsure_path = true; model_ok = false; S->unsure++; } else if (model_ok) set_model(mf);
    add_con(p, f & ~rel & 7); setfact(p, f & ~rel & 7);
    return false;
  }
  if (rt == 0) { unsure_path = true; model_ok = false; S->unsure++; } else if (model_ok) set_model(mt);
  add_con(p, f & rel); setfact(p, f & rel);
  return true;
}
// k1*sqrt(u) + k2*sqrt(w) or k1*sqrt(u) + k2, k1*k2 < 0: a polynomial of the same sign without the roots
static PP unroot(const PP &p) {
  if (p->t.size() != 2 || sgn(p->t[0].second) * sgn(p->t[1].second) >= 0) return p;
  PP sq[2]; bool any = false;
  for (int i = 0; i < 2; i++) {
    auto &x = p->t[i];
    mpq_class k = x.second * x.second;
    if (x.first == 0) { sq[i] = pconst(k); continue; }
    auto &m = monos[x.first];
    if (m.size() != 1 || (m[0] & 1023) != 1 || vars[m[0] >> 10].kind != V_SQRT) return p;
    sq[i] = pscale(vars[m[0] >> 10].a, k); any = true;
  }
  if (!any) return p;
  PP r = padd(sq[0], sq[1], -1);
  return unroot(p->t[0].second > 0 ? r : pscale(r, -1));
}
static PP sign_poly0(const Ex &e);
static PP sign_poly(const Ex &e) { return unroot(sign_poly0(e)); }
// numerator times the odd denominator factors whose sign is not known
static PP sign_poly0(const Ex &e) {
  PP p = e.n;
  for (auto &f : e.d) if (f.second & 1) {
    int &k = fact(facs[f.first]);
    if (k != NEG && k != POS) quick_sign(facs[f.first], k);
    if (!(k & NEG)) continue;
    if (!(k & POS)) { p = pscale(p, -1); continue; }
    Model m;
    int ms = model_sign(facs[f.first]);
    // one query: is the other sign possible?
    int other = ms == 1 ? NEG : ms == -1 ? POS : 0;
    if (other && query({{facs[f.first], other}}, RL_BRANCH, nullptr, false) < 0) {
      setfact(facs[f.first], fact(facs[f.first]) & ~other);
      if (ms < 0) p = pscale(p, -1);
      continue;
    }
    p = pmul(p, facs[f.first]);
  }
  return p;
}
static bool decide_ex(double a, int rel) {
  if (!symb(a)) return rel & (a > 0 ? POS : a < 0 ? NEG : ZER);
  Ex e = ex[eid(a)];
  return decide(sign_poly(e), rel);
}

// ---------------------------------------------------------------- path end
static bool in_exit = false;
static void path_exit(int rc) {
  in_exit = true;
  if (own_slot) S->active.fetch_sub(1);
  reap(true);
  _exit(rc);
}
static void write_cex(const char *label, const char *kind, const map<string, double> &in, const char *file = nullptr);
static void sample() {
  u64 n = S->paths.load(), k = 0;
  while (n >= (2ull << k)) k++;                 // the 1st, 2nd, 4th, 8th ... finished path and every 64th
  if (n > 8 && (n & (n - 1)) && n % 64) return;
  if (!model_ok) return;
  n = S->samples.fetch_add(1);
  if (n >= 24) return;
  map<string, double> in;
  for (auto &v : vars) if (v.kind == V_INPUT) in[v.name] = v.val.get_d();
  char fn[32]; snprintf(fn, sizeof fn, "/sample_%02lu.txt", (unsigned long)n);
  write_cex("path", "sample", in, fn);
  FILE *f = fopen((OUT + fn).c_str(), "a");
  if (f) { fprintf(f, "# path constraints: %zu, symbolic inputs: %zu\n", pc.size(), in.size()); fclose(f); }
}
static void write_cex(const char *label, const char *kind, const map<string, double> &in, const char *file) {
  char fn[64];
  if (file) snprintf(fn, sizeof fn, "%s", file);
  else snprintf(fn, sizeof fn, "/cex_%05lu.txt", (unsigned long)S->ncex.fetch_add(1));
  string tmp = OUT + fn + ".tmp", fin = OUT + fn;
  FILE *f = fopen(tmp.c_str(), "w");
  if (!f) return;
  fprintf(f, "L %s\nK %s\n", label, kind);
  for (auto &c : choices) fprintf(f, "C %s %d\n", c.first.c_str(), c.second);
  for (auto &x : in) fprintf(f, "R %s %a\n", x.first.c_str(), x.second);
  fclose(f);
  rename(tmp.c_str(), fin.c_str());
}
// try to fix every input of the slice to a short dyadic while keeping q satisfiable
static bool nice_cex(const char *label, const char *kind, const vector<Con> &q, u64 rl) {
  set<u32> vs; vector<const Con *> cs;
  slice(q, vs, cs);
  vector<Z3_ast> as; zdefs(vs, as);
  for (auto c : cs) as.push_back(zcon(*c));
  for (auto &c : q) as.push_back(zcon(c));
  Model m;
  if (solve(as, rl, &vs, &m, false) <= 0) return false;
  map<u32, mpq_class> cur;
  for (auto &[v, x, e] : m.v) { (void)e; cur[v] = x; }
  static const int sh[] = {0, 1, 2, 4, 8, 16, 30};
  for (u32 v : vs) {
    if (vars[v].kind != V_INPUT && vars[v].kind != V_UNINT) continue;
    if (vars[v].kind == V_UNINT) continue;
    bool fixed = false;
    for (int k : sh) {
      mpz_class s = mpz_class(1) << k;
      mpq_class t = cur[v] * s + mpq_class(1, 2);
      mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), t.get_num_mpz_t(), t.get_den_mpz_t());
      mpq_class cand(fl, s); cand.canonicalize();
      if (cand < vars[v].lo || cand > vars[v].hi) continue;
      as.push_back(Z3_mk_eq(Z, zv(v), znum(cand)));
      Model m2;
      if (solve(as, rl / 40, &vs, &m2, false) > 0) {
        for (auto &[w, x, e] : m2.v) { (void)e; cur[w] = x; }
        fixed = true; break;
      }
      as.pop_back();
    }
    (void)fixed;
  }
  map<string, double> in;
  for (auto &v : vars) if (v.kind == V_INPUT) in[v.name] = v.val.get_d();
  for (auto &x : cur) if (vars[x.first].kind == V_INPUT) in[vars[x.first].name] = x.second.get_d();
  write_cex(label, kind, in);
  return true;
}
static void dump_model_cex(const char *label, const char *kind) {
  map<string, double> in;
  for (auto &v : vars) if (v.kind == V_INPUT) in[v.name] = v.val.get_d();
  write_cex(label, kind, in);
}
static void crash(const char *why) {
  if (in_exit) _exit(9);
  in_exit = true;
  S->crashes++;
  Label *l = lab("__crash__");
  l->fail++;
  if (l->cex.fetch_add(1) < (u32)MAXCEX * 4) dump_model_cex(why, "crash");
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); }
  if (own_slot) S->active.fetch_sub(1);
  _exit(9);
}
static void on_sig(int s) {
  static char b[32]; snprintf(b, sizeof b, "signal_%d", s);
  crash(b);
}
// a path that runs on without the solver being asked anything, or to the end of the time: a candidate for code that does not return
static volatile u64 progress_seen = 0; static volatile int idle_s = 0, path_s = 0;
static void on_tick(int) {
  path_s++;
  if (in_query || progress_n != progress_seen) { progress_seen = progress_n; idle_s = 0; return; }
  if (++idle_s >= 40) { S->cut++; crash("timeout"); }
}
static void on_stop(int) { S->cut++; if (path_s >= 40 && !in_query) crash("timeout"); _exit(9); }
static void arm_tick() {
  path_s = idle_s = 0;
  struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 1; it.it_interval.tv_usec = it.it_value.tv_usec = 0;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void on_term() { crash("uncaught_exception"); }
extern "C" void __asan_on_error() { }
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
static void on_asan() { crash("memory_error"); }

// ---------------------------------------------------------------- operations
static bool special(double d) { return !symb(d) && !(std::fabs(d) <= DBL_MAX); }
static int msign(double a) { return decide_ex(a, POS) ? 1 : decide_ex(a, NEG) ? -1 : 0; }
extern "C" {
double __nk_add(double, double); double __nk_sub(double, double); double __nk_mul(double, double);
double __nk_div(double, double); double __nk_neg(double); double __nk_sqrt(double); double __nk_fabs(double);
int __nk_cmp(u32, double, double); double __nk_floor(double); double __nk_cos(double); double __nk_sin(double);
double __nk_add(double a, double b) {
  if (!symb(a) && !symb(b)) return a + b;
  if (special(a)) return a;
  if (special(b)) return b;
  S->ops++;
  return addx(a, b, 1);
}
double __nk_neg(double a) {
  if (!symb(a)) return -a;
  Ex e = ex[eid(a)];
  return mk(pscale(e.n, -1), e.d, -e.sh);
}
double __nk_sub(double a, double b) {
  if (!symb(a) && !symb(b)) return a - b;
  if (special(a)) return a;
  if (special(b)) return -b;
  S->ops++;
  return addx(a, b, -1);
}
double __nk_mul(double a, double b) {
  if (!symb(a) && !symb(b)) return a * b;
  if (special(a) || special(b)) {
    if (special(b)) std::swap(a, b);
    if (a != a) return a;
    int s = msign(b);
    return s > 0 ? a : s < 0 ? -a : NAN;
  }
  S->ops++;
  return mulx(a, b);
}
double __nk_div(double a, double b) {
  if (!symb(a) && !symb(b)) return a / b;
  if (special(b)) return b != b ? b : 0.0;
  if (special(a)) { if (a != a) return a; int s = msign(b); return s >= 0 ? a : -a; }
  S->ops++;
  if (!symb(b)) {
    if (b == 0) { int s = msign(a); return s == 0 ? NAN : (std::signbit(b) ? -s : s) * INFINITY; }
    Ex e = ex[eid(a)];
    return mk(pscale(e.n, 1 / mpq_class(b)), e.d, e.sh / b);
  }
  if (decide(ex[eid(b)].n, ZER)) { int s = msign(a); return s == 0 ? NAN : s * INFINITY; }
  if (!symb(a) && a == 0) return 0.0;
  return __nk_mul(a, invx(b));
}
int __nk_cmp(u32 pred, double a, double b) {
  bool sa = symb(a), sb = symb(b);
  if (!sa && !sb) {
    bool un = a != a || b != b;
    bool e = a == b, l = a < b, g = a > b;
    bool r = ((pred & 1) && e) || ((pred & 2) && g) || ((pred & 4) && l) || ((pred & 8) && un);
    return r;
  }
  if (special(a) || special(b)) {
    double x = sa ? 0 : a, y = sb ? 0 : b;
    bool un = x != x || y != y;
    return ((pred & 1) && x == y) || ((pred & 2) && x > y) || ((pred & 4) && x < y) || ((pred & 8) && un);
  }
  int rel = (pred & 1 ? ZER : 0) | (pred & 2 ? POS : 0) | (pred & 4 ? NEG : 0);
  if (rel == 0) return 0;
  if (rel == 7) return 1;
  double d = addx(a, b, -1);
  // |atan2| against a constant
  if (symb(d)) {
    Ex &e = ex[eid(d)];
    if (e.d.empty() && e.n->t.size() <= 2) {
      u32 av = ~0u; mpq_class k = 0, cc;
      for (auto &t : e.n->t) {
        if (t.first == 0) cc = t.second;
        else if (monos[t.first].size() == 1 && (monos[t.first][0] & 1023) == 1) { av = monos[t.first][0] >> 10; k = t.second; } else { av = ~0u; k = 0; break; }
      }
      if (av != ~0u && k != 0 && vars[av].kind == V_UNINT && vars[av].fn == 3) {  // |atan2(y,x)| + cc/k
        double thr = mpq_class(-cc / k).get_d();
        // sign(d) = sign(k) * sign(|ang| - thr)
        if (thr <= 0 || thr >= M_PI) { /* generic */ }
        else {
          double y = box(vars[av].arg1), x = box(vars[av].arg2);
          if (vars[av].arg1 == ~0u) y = vars[av].lo.get_d();
          double h = __nk_sqrt(__nk_add(__nk_mul(x, x), __nk_mul(y, y)));
          double g = __nk_sub(__nk_mul(h, cos(thr)), x);     // >0 iff |ang| > thr
          int rr = k > 0 ? rel : flipmask(rel);
          return decide_ex(g, rr);
        }
      }
    }
  }
  return decide_ex(d, rel);
}
double __nk_fabs(double a) {
  if (!symb(a)) return std::fabs(a);
  Ex e = ex[eid(a)];
  if (e.d.empty() && e.n->t.size() == 1 && monos[e.n->t[0].first].size() == 1) {
    u32 f = monos[e.n->t[0].first][0]; Var v0 = vars[f >> 10];
    if ((f & 1023) == 1 && v0.kind == V_UNINT && v0.fn == 2) { // |k*atan2|
      static map<u32, double> cache;
      mpq_class k = abs(e.n->t[0].second);
      auto it = cache.find(f >> 10);
      if (it == cache.end()) {
        u32 v = newvar(V_UNINT, "absatan2", 0, mpq_class(M_PI));
        vars[v].fn = 3; vars[v].arg1 = v0.arg1; vars[v].arg2 = v0.arg2;
        vars[v].val = abs(v0.val); vars[v].exact = false;
        it = cache.emplace(f >> 10, mk(pvar(v), {}, std::fabs(e.sh))).first;
      }
      return __nk_mul(k.get_d(), it->second);
    }
  }
  return decide_ex(a, POS | ZER) ? a : __nk_neg(a);
}
static std::unordered_map<PP, u32, PH, PE> sqrt_id;
static bool poly_sqrt(const PP &p, PP &root) {
  // exact square root of a polynomial with positive square leading coefficients
  if (p->t.size() > 60) return false;
  Terms q; PP rem = p; u32 lm = 0; mpq_class lc; bool first = true;
  for (int it = 0; it < 40; it++) {
    if (rem->zero()) { std::sort(q.begin(), q.end(), [](auto &a, auto &b) { return a.first < b.first; }); root = mkp(std::move(q)); return true; }
    u32 rm = rem->t[0].first; mpq_class rc = rem->t[0].second;
    for (auto &x : rem->t) if (mono_less(rm, x.first)) { rm = x.first; rc = x.second; }
    if (first) {
      vector<u32> h;
      for (u32 f : monos[rm]) { if (f & 1) return false; h.push_back((f & ~1023u) | ((f & 1023) / 2)); }
      if (rc < 0 || !mpz_perfect_square_p(rc.get_num_mpz_t()) || !mpz_perfect_square_p(rc.get_den_mpz_t())) return false;
      lm = intern_mono(h); lc = mpq_class(sqrt(rc.get_num()), sqrt(rc.get_den()));
      q.push_back({lm, lc}); first = false;
      rem = padd(rem, pmul(mkp({{lm, lc}}), mkp({{lm, lc}})), -1);
    } else {
      u32 m;
      if (!mono_div(rm, lm, m)) return false;
      mpq_class c = rc / (2 * lc);
      Terms qs = q; std::sort(qs.begin(), qs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      PP cur = mkp(std::move(qs)), t = mkp({{m, c}});
      rem = padd(rem, padd(pscale(pmul(cur, t), 2), pmul(t, t), 1), -1);
      q.push_back({m, c});
    }
  }
  return false;
}
static double sqrt_poly(const PP &u0, double sh) {    // u >= 0 on this path
  if (u0->is_const()) {
    mpq_class c = u0->t[0].second; bool e; mpq_class r = approx_sqrt(c, e);
    if (e) return mk(pconst(r), {}, sh);
  }
  PP root;
  if (poly_sqrt(u0, root)) { double r = mk(root, {}, 0); if (symb(r)) { ex[eid(r)].sh = sh; if (!decide(root, POS | ZER)) { r = __nk_neg(r); ex[eid(r)].sh = sh; } } return r; }
  // pull out a rational square
  mpz_class g = 0, l = 1;
  for (auto &x : u0->t) { g = gcd(g, x.second.get_num()); l = lcm(l, x.second.get_den()); }
  // u0 = g/l * w, w primitive integer.  g/l = (g*l)/l^2
  mpz_class gl = g * l, sq = 1;
  if (mpz_perfect_square_p(gl.get_mpz_t())) { sq = sqrt(gl); gl = 1; }
  else for (int p : {2, 3, 5, 7}) while (gl % (p * p) == 0) { gl /= p * p; sq *= p; }
  mpq_class outside(sq, l); outside.canonicalize();
  PP w = pscale(u0, mpq_class(1) / (outside * outside));
  auto it = sqrt_id.find(w);
  u32 v;
  if (it != sqrt_id.end()) v = it->second;
  else {
    v = newvar(V_SQRT, "sqrt", 0, 0);
    vars[v].bounded = false; vars[v].a = w;
    sqrt_id[w] = v;
  }
  // (re)evaluate in the current model
  if (model_ok) { bool e = true; for (u32 x : w->vset()) if (!vars[x].exact) e = false; bool e2; vars[v].val = approx_sqrt(model_val(w), e2); vars[v].exact = e && e2; }
  return mk(mkp({{intern_mono({v << 10 | 1}), outside}}), {}, sh);
}
double __nk_sqrt(double a) {
  if (!symb(a)) return std::sqrt(a);
  if (!decide_ex(a, POS | ZER)) return NAN;
  Ex e = ex[eid(a)];
  double sh = std::sqrt(e.sh);
  PP u = e.n; Den d; 
  vector<u32> even;
  for (auto &f : e.d) {
    u32 k = f.second;
    if (k & 1) { u = pmul(u, facs[f.first]); k++; }
    d.push_back({f.first, k / 2});
  }
  // sqrt(n / prod f^(2k)) = sqrt(n) / prod |f|^k
  int sg = 1;
  for (auto &f : d) if (f.second & 1) { if (!decide(facs[f.first], POS)) sg = -sg; }
  double s = sqrt_poly(u, sh);
  if (d.empty()) return s;
  Ex x = get(s);
  Den dd = x.d;
  if (!dd.empty()) abort();
  return mk(pscale(x.n, sg), d, sh);
}
static map<std::tuple<int, string>, u32> unint_id;
static string exkey(double a) {
  if (!symb(a)) { char b[40]; snprintf(b, 40, "%a", a); return b; }
  Ex &e = ex[eid(a)];
  string s;
  for (auto &t : e.n->t) s += std::to_string(t.first) + ":" + t.second.get_str() + ",";
  s += "/";
  for (auto &f : e.d) s += std::to_string(f.first) + "^" + std::to_string(f.second) + ",";
  return s;
}
static double unint(int fn, double a, double b, double sh, double lo, double hi, bool bounded) {
  auto key = std::make_tuple(fn, exkey(a) + "|" + exkey(b));
  auto it = unint_id.find(key);
  u32 v;
  if (it == unint_id.end()) {
    v = newvar(V_UNINT, "fn" + std::to_string(fn), mpq_class(lo), mpq_class(hi));
    vars[v].bounded = bounded; vars[v].fn = fn; vars[v].arg1 = symb(a) ? eid(a) : ~0u; vars[v].arg2 = symb(b) ? eid(b) : ~0u;
    vars[v].val = mpq_class(sh == sh && std::fabs(sh) < 1e300 ? sh : 0.5); vars[v].exact = true;
    if (bounded && vars[v].val < vars[v].lo) vars[v].val = vars[v].lo;
    if (bounded && vars[v].val > vars[v].hi) vars[v].val = vars[v].hi;
    unint_id[key] = v;
    S->concr++;
  } else v = it->second;
  return mk(pvar(v), {}, sh);
}
static map<string, pair<double, double>> trig;
static void mktrig(double a) {
  string k = exkey(a);
  if (trig.count(k)) return;
  // of an (abs)atan2 variable: exact
  Ex &e = ex[eid(a)];
  if (e.d.empty() && e.n->t.size() == 1 && monos[e.n->t[0].first].size() == 1 && e.n->t[0].second == 1) {
    u32 f = monos[e.n->t[0].first][0]; Var v0 = vars[f >> 10];
    if ((f & 1023) == 1 && v0.kind == V_UNINT && (v0.fn == 3 || v0.fn == 2) && v0.arg1 != ~0u && v0.arg2 != ~0u) {
      double y = box(v0.arg1), x = box(v0.arg2);
      double h = __nk_sqrt(__nk_add(__nk_mul(x, x), __nk_mul(y, y)));
      double sy = v0.fn == 3 ? __nk_fabs(y) : y;
      trig[k] = {__nk_div(sy, h), __nk_div(x, h)};
      return;
    }
  }
  double sh = e.sh;
  u32 s = newvar(V_SIN, "sin", -1, 1), c = newvar(V_COS, "cos", -1, 1);
  vars[s].other = c; vars[c].other = s;
  // a rational point of the circle for the model
  mpq_class t((int)(rnd() % 37) - 18, 11);
  vars[s].val = 2 * t / (1 + t * t); vars[c].val = (1 - t * t) / (1 + t * t);
  trig[k] = {mk(pvar(s), {}, sin(sh)), mk(pvar(c), {}, cos(sh))};
}
double __nk_sin(double a) { if (!symb(a)) return sin(a); mktrig(a); return trig[exkey(a)].first; }
double __nk_cos(double a) { if (!symb(a)) return cos(a); mktrig(a); return trig[exkey(a)].second; }
double __nk_tan(double a) { if (!symb(a)) return tan(a); return __nk_div(__nk_sin(a), __nk_cos(a)); }
double __nk_atan2(double y, double x) {
  if (!symb(y) && !symb(x)) return atan2(y, x);
  if (!symb(y)) y = mk(pconst(mpq_class(y)), {}, y), y = symb(y) ? y : (ex.push_back({pconst(mpq_class(y)), {}, y}), box(ex.size() - 1));
  if (!symb(x)) { double t = x; ex.push_back({pconst(mpq_class(t)), {}, t}); x = box(ex.size() - 1); }
  return unint(2, y, x, atan2(shd(y), shd(x)), -M_PI, M_PI, true);
}
#define UN(name, id, f, lo, hi, bd) double __nk_##name(double a) { if (!symb(a)) return f(a); return unint(id, a, 0, f(shd(a)), lo, hi, bd); }
UN(atan, 10, atan, -2, 2, true) UN(asin, 11, asin, -2, 2, true) UN(acos, 12, acos, 0, 4, true)
UN(exp, 13, exp, 0, 1e300, true) UN(log, 14, log, -800, 800, true) UN(exp2, 15, exp2, 0, 1e300, true)
UN(log2, 16, log2, -1200, 1200, true) UN(log10, 17, log10, -400, 400, true) UN(cbrt, 18, cbrt, 0, 0, false)
UN(expm1, 19, expm1, -1, 1e300, true) UN(log1p, 20, log1p, -800, 800, true) UN(tanh, 21, tanh, -1, 1, true)
UN(sinh, 22, sinh, 0, 0, false) UN(cosh, 23, cosh, 1, 1e300, true)
double __nk_powi(double a, int n) {
  if (!symb(a)) return pow(a, n);
  if (n < 0) return __nk_div(1.0, __nk_powi(a, -n));
  double r = 1; for (int i = 0; i < n; i++) r = __nk_mul(r, a);
  return r;
}
double __nk_pow(double a, double b) {
  if (!symb(a) && !symb(b)) return pow(a, b);
  if (!symb(b)) {
    if (b == floor(b) && fabs(b) <= 16) return __nk_powi(a, (int)b);
    if (b == 0.5) return __nk_sqrt(a);
    if (b == 1.5) return __nk_mul(a, __nk_sqrt(a));
    if (b == -0.5) return __nk_div(1.0, __nk_sqrt(a));
  }
  return unint(30, a, b, pow(shd(a), shd(b)), 0, 0, false);
}
double __nk_hypot(double a, double b) { if (!symb(a) && !symb(b)) return hypot(a, b); return __nk_sqrt(__nk_add(__nk_mul(a, a), __nk_mul(b, b))); }
double __nk_fma(double a, double b, double c) { if (!symb(a) && !symb(b) && !symb(c)) return fma(a, b, c); return __nk_add(__nk_mul(a, b), c); }
double __nk_fmin(double a, double b) {
  if (!symb(a) && !symb(b)) return fmin(a, b);
  if (!symb(a) && a != a) return b;
  if (!symb(b) && b != b) return a;
  return __nk_cmp(4, a, b) ? a : b;
}
double __nk_fmax(double a, double b) {
  if (!symb(a) && !symb(b)) return fmax(a, b);
  if (!symb(a) && a != a) return b;
  if (!symb(b) && b != b) return a;
  return __nk_cmp(4, a, b) ? b : a;
}
double __nk_fdim(double a, double b) { if (!symb(a) && !symb(b)) return fdim(a, b); return __nk_cmp(2, a, b) ? __nk_sub(a, b) : 0.0; }
double __nk_copysign(double a, double b) {
  if (!symb(a) && !symb(b)) return copysign(a, b);
  double m = __nk_fabs(a);
  bool neg = symb(b) ? decide_ex(b, NEG) : std::signbit(b);
  return neg ? __nk_neg(m) : m;
}
static long pick_int(double a, int bits = 64) {   // truncation toward zero, forking over the possible values
  for (int it = 0; it < 4096; it++) {
    Ex e = ex[eid(a)];
    long k;
    if (model_ok) {
      mpq_class v = model_val(e.n);
      mpq_class dn = 1;
      for (auto &f : e.d) for (u32 j = 0; j < f.second; j++) dn *= model_val(facs[f.first]);
      if (dn == 0) dn = 1;
      v /= dn;
      mpz_class t; mpz_tdiv_q(t.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
      double lim = std::ldexp(1.0, bits - 1);
      if (t >= mpz_class(lim)) { if (__nk_cmp(3, a, lim)) return bits == 32 ? (long)INT32_MIN : INT64_MIN; continue; }          // as cvttsd2si
      if (t <= -mpz_class(lim)) { if (__nk_cmp(5, a, -lim)) return bits == 32 ? (long)INT32_MIN : INT64_MIN; continue; }
      if (it > 40 || !t.fits_slong_p()) { S->cut++; path_exit(0); }
      k = t.get_si();
    } else { S->cut++; path_exit(0); }
    bool in;
    if (k == 0) in = __nk_cmp(2, a, -1.0) && __nk_cmp(4, a, 1.0);
    else if (k > 0) in = __nk_cmp(3, a, (double)k) && __nk_cmp(4, a, (double)k + 1);
    else in = __nk_cmp(2, a, (double)k - 1) && __nk_cmp(5, a, (double)k);
    if (in) return k;
  }
  S->cut++; path_exit(0);
}
int64_t __nk_toint(double a, u32 bits, u32 sg) {
  if (!symb(a)) {
    if (sg) {
      if (bits <= 32) return (int64_t)(int32_t)a;   // as cvttsd2si
      return (int64_t)a;
    }
    if (bits == 64) return (int64_t)(uint64_t)a;
    return (int64_t)a;
  }
  return pick_int(a, sg && bits <= 32 ? 32 : 64);
}
double __nk_trunc(double a) { if (!symb(a)) return trunc(a); return (double)pick_int(a); }
double __nk_floor(double a) {
  if (!symb(a)) return floor(a);
  double k = (double)pick_int(a);
  return __nk_cmp(4, a, k) ? k - 1 : k;
}
double __nk_ceil(double a) { return __nk_neg(__nk_floor(__nk_neg(a))); }
double __nk_round(double a) { if (!symb(a)) return round(a); return decide_ex(a, POS | ZER) ? __nk_floor(__nk_add(a, 0.5)) : __nk_neg(__nk_floor(__nk_add(__nk_neg(a), 0.5))); }
double __nk_rint(double a) { if (!symb(a)) return rint(a); return __nk_floor(__nk_add(a, 0.5)); }
double __nk_fmod(double a, double b) {
  if (!symb(a) && !symb(b)) return fmod(a, b);
  double q = __nk_div(a, b);
  double k = symb(q) ? (double)pick_int(q) : trunc(q);
  return __nk_sub(a, __nk_mul(k, b));
}
double __nk_concrete(double a) {
  if (!symb(a)) return a;
  S->concr++;
  Ex &e = ex[eid(a)];
  mpq_class v = model_val(e.n), dn = 1;
  for (auto &f : e.d) for (u32 j = 0; j < f.second; j++) dn *= model_val(facs[f.first]);
  return dn == 0 ? 0.0 : mpq_class(v / dn).get_d();
}
int __nk_fpclass(double a, u32 mask) {
  if (!symb(a)) {
    u32 c;
    if (a != a) c = 2;
    else if (std::isinf(a)) c = a < 0 ? 4 : 512;
    else if (a == 0) c = std::signbit(a) ? 32 : 64;
    else if (std::fabs(a) < DBL_MIN) c = a < 0 ? 16 : 128;
    else c = a < 0 ? 8 : 256;
    if (a != a) return (mask & 3) != 0;
    return (mask & c) != 0;
  }
  mask &= ~(3u | 4 | 512);
  u32 fin = 8 | 16 | 32 | 64 | 128 | 256;
  if ((mask & fin) == fin) return 1;
  if ((mask & fin) == 0) return 0;
  int rel = (mask & (8 | 16) ? NEG : 0) | (mask & (32 | 64) ? ZER : 0) | (mask & (128 | 256) ? POS : 0);
  return decide_ex(a, rel);
}
__attribute__((weak)) int __nk_rand(void) {
  static int k = 0;
  static unsigned s = 1;
  s = s * 1103515245u + 12345u; k++;
  return (int)((s >> 1) & 0x7fffffff);
}
size_t __nk_hash_bytes(const void *p, size_t n, size_t seed) {
  if (n == 8) { double d; memcpy(&d, p, 8); if (symb(d)) { string k = exkey(d); return std::hash<string>()(k); } }
  u64 h = seed ^ 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull;
  return h;
}

void __nk_fn(char *flag, const char *name) {
  if (*flag || !S) return;
  *flag = 1;
  u64 h = 1469598103934665603ull;
  for (const char *p = name; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  for (u32 i = 0; i < 2048; i++) {
    auto &l = S->fn[(h + i) & 2047];
    for (;;) {
      u32 u = l.used.load();
      if (u == 2) { if (!strncmp(l.name, name, 251)) return; break; }
      if (u == 0) { u32 z = 0; if (l.used.compare_exchange_strong(z, 1)) { strncpy(l.name, name, 251); l.used = 2; S->nfn++; return; } }
    }
  }
}
// ---------------------------------------------------------------- harness API
double nk_real(const char *name, double lo, double hi) {
  u32 v = newvar(V_INPUT, name, mpq_class(lo), mpq_class(hi));
  // a generic dyadic of the box
  mpq_class t((unsigned long)(rnd() % 509 + 1), 512);
  t.canonicalize();
  vars[v].val = vars[v].lo + (vars[v].hi - vars[v].lo) * t;
  vars[v].shadow = vars[v].val.get_d();
  return mk(pvar(v), {}, vars[v].shadow);
}
int nk_choose(const char *name, int n) {
  int k = 0;
  for (; k < n - 1; k++) {
    if (timed_out()) { S->cut++; break; }
    if (do_fork()) { choices.push_back({name, k}); return k; }
  }
  choices.push_back({name, k});
  return k;
}
static int relmask(const char *op) {
  if (!strcmp(op, "<")) return NEG;
  if (!strcmp(op, "<=")) return NEG | ZER;
  if (!strcmp(op, "==")) return ZER;
  if (!strcmp(op, "!=")) return NEG | POS;
  if (!strcmp(op, ">=")) return POS | ZER;
  if (!strcmp(op, ">")) return POS;
  abort();
}
void nk_drop(void) { S->dropped++; path_exit(0); }
void nk_assume(double a, const char *op, double b) {
  double d = __nk_sub(a, b);
  int rel = relmask(op);
  if (!symb(d)) { if (!(rel & (d > 0 ? POS : d < 0 ? NEG : d == 0 ? ZER : 0))) nk_drop(); return; }
  PP p0 = sign_poly(ex[eid(d)]);
  if (p0->is_const()) { int s = sgn(p0->zero() ? mpq_class(0) : p0->t[0].second); if (!(rel & (s > 0 ? POS : s < 0 ? NEG : ZER))) nk_drop(); return; }
  mpq_class c; PP p = monic(p0, c);
  if (c < 0) rel = flipmask(rel);
  int &f0 = fact(p);
  quick_sign(p, f0);
  int f = f0;
  if (!(f & rel)) nk_drop();
  if (!(f & ~rel)) return;
  int ms = model_sign(p);
  int mb = ms == 2 ? 0 : ms < 0 ? NEG : ms > 0 ? POS : ZER;
  if (!(mb & rel)) {
    Model m;
    int r = query({{p, f & rel}}, RL_BRANCH, &m, false);
    if (r < 0) nk_drop();
    if (r > 0 && model_ok) set_model(m);
    if (r == 0) { unsure_path = true; model_ok = false; S->unsure++; }
  }
  add_con(p, f & rel); setfact(p, f & rel);
}
static bool path_feasible() {
  if (!unsure_path) return true;
  vector<Con> all;
  Model m;
  set<u32> vs; vector<Z3_ast> as;
  for (auto &c : pc) for (u32 v : c.p->vset()) vs.insert(v);
  vector<u32> todo(vs.begin(), vs.end());
  while (!todo.empty()) { u32 v = todo.back(); todo.pop_back(); auto add = [&](u32 w) { if (vs.insert(w).second) todo.push_back(w); };
    if (vars[v].a) for (u32 w : vars[v].a->vset()) add(w);
    if (vars[v].b) for (u32 w : vars[v].b->vset()) add(w);
    if (vars[v].kind == V_SIN || vars[v].kind == V_COS) add(vars[v].other); }
  zdefs(vs, as);
  for (auto &c : pc) as.push_back(zcon(c));
  S->q_branch++;
  int r = solve(as, RL_OBL, &vs, &m, false);
  if (r < 0) { S->infeasible++; path_exit(0); }
  if (r > 0) { set_model(m); model_ok = true; unsure_path = false; return true; }
  return false;
}
void nk_check(int c, const char *label) {
  Label *l = lab(label);
  l->reach++;
  if (c) { l->ok++; return; }
  bool feas = path_feasible();
  if (feas) l->fail++; else l->unknown++;
  if (l->cex.fetch_add(1) < (u32)MAXCEX) {
    if (pc.empty() || !nice_cex(label, "check", pc, RL_OBL)) dump_model_cex(label, "check");
  }
}
static void shadow_test(double a) { (void)a; }
static void obligation(double d, int okrel, double scale, Label *l, const char *label) {
  // d OKREL 0 must hold
  l->reach++;
  if (!symb(d)) {
    bool ok = d == d && (okrel & (d > 0 ? POS : d < 0 ? NEG : ZER));
    if (!ok && d == d && !symb(scale) && std::fabs(d) <= 1e-9 * std::fabs(scale)) { l->ok++; return; }
    if (ok) { l->ok++; l->ident++; S->q_oblig++; S->q_unsat++; return; }
    if (path_feasible()) l->fail++; else l->unknown++;
    if (l->cex.fetch_add(1) < (u32)MAXCEX) if (pc.empty() || !nice_cex(label, "eq", pc, RL_OBL)) dump_model_cex(label, "eq");
    return;
  }
  Ex e = ex[eid(d)];
  PP p = sign_poly(e);
  int bad = ~okrel & 7;
  mpq_class cc; PP pm = monic(p, cc);
  int badm = cc < 0 ? flipmask(bad) : bad;
  int &f0 = fact(pm);
  quick_sign(pm, f0);
  int f = f0;
  if (!(f & badm)) { l->ok++; return; }
  if (bad != ZER && !special(scale)) {     // within the margin by the boxes of the variables alone
    double s2 = __nk_mul(1e-9, scale);
    auto never = [&](double g, int rel) {
      if (!symb(g)) return !(rel & (g > 0 ? POS : g < 0 ? NEG : ZER));
      mpq_class c2; PP q = monic(sign_poly(ex[eid(g)]), c2);
      int rm = c2 < 0 ? flipmask(rel) : rel, f2 = fact(q);
      quick_sign(q, f2);
      return !(f2 & rm);
    };
    if ((!(bad & POS) || never(__nk_sub(d, s2), POS)) && (!(bad & NEG) || never(__nk_add(d, s2), NEG))) { l->ok++; l->small++; return; }
  }
  Model m;
  int r = query({{p, bad}}, RL_OBL, &m, true);
  if (r < 0) { l->ok++; setfact(pm, fact(pm) & ~badm); return; }
  // margin: violation by more than 1e-9 * scale (then larger, for the replay)
  int last = r;
  bool any = false;
  for (double mg : {0., 1e-2, 1e-4, 1e-6, 1e-9}) {      // any violation by more than 1e-9?  then one as large as possible
    vector<vector<Con>> alts;
    bool first = mg == 0;
    if (first) mg = 1e-9;
    double s2 = __nk_mul(mg, scale);
    if (bad & POS) { double g = __nk_sub(d, s2); if (symb(g)) alts.push_back({{sign_poly(ex[eid(g)]), POS}}); else if (g > 0) alts.push_back({}); }
    if (bad & NEG) { double g = __nk_add(d, s2); if (symb(g)) alts.push_back({{sign_poly(ex[eid(g)]), NEG}}); else if (g < 0) alts.push_back({}); }
    if (bad == ZER) alts.push_back({{p, ZER}});
    bool unk = false;
    for (auto &q : alts) {
      Model m2;
      int r2 = query(q, RL_OBL, &m2, true);
      if (r2 > 0 && first) { unk = true; break; }
      if (r2 > 0) {
        if (!path_feasible()) { unk = true; continue; }
        l->fail++; any = true;
        if (l->cex.fetch_add(1) < (u32)MAXCEX) { if (!nice_cex(label, "eq", q, RL_OBL)) dump_model_cex(label, "eq"); }
        break;
      }
      if (r2 == 0) unk = true;
    }
    if (any) return;
    last = unk ? 0 : -1;
    if (first && last < 0) break;
    // a model that violates it without margin, but none at this margin: go smaller
  }
  if (last < 0) { l->ok++; l->small++; }      // holds within 1e-9*scale for every input
  else {
    l->unknown++;
    if (r > 0 && l->cex.fetch_add(1) < (u32)MAXCEX) { if (!nice_cex(label, "eq", {{p, bad}}, RL_OBL)) dump_model_cex(label, "eq"); }
  }
}
void nk_cmp(double a, const char *op, double b, double scale, const char *label) {
  Label *l = lab(label);
  if (special(a) || special(b)) {
    bool ok = false;
    double x = symb(a) ? 0 : a, y = symb(b) ? 0 : b;
    int m = relmask(op);
    ok = x == x && y == y && ((m & NEG && x < y) || (m & ZER && x == y) || (m & POS && x > y));
    nk_check(ok, label);
    return;
  }
  obligation(__nk_sub(a, b), relmask(op), scale, l, label);
}
void nk_eq(double a, double b, double scale, const char *label) { nk_cmp(a, "==", b, scale, label); }
void nk_reach(const char *label) { lab(label)->reach++; lab(label)->ok++; }
int nk_thorough(void) { return thorough; }
int nk_symbolic(void) { return 1; }
}
// self-check of the encoder: normal form against the shadow of the double computation
static void shadow_all() {
  // evaluate a sample of expressions at the shadow inputs
  size_t n = ex.size(), step = std::max<size_t>(1, n / 200);
  vector<double> vv(vars.size());
  for (u32 v = 0; v < vars.size(); v++) {
    Var &x = vars[v];
    if (x.kind == V_INPUT) vv[v] = x.shadow;
    else return;       // only pure polynomial/rational paths
  }
  auto ev = [&](const PP &p, double &mag) { double s = 0; mag = 0; for (auto &t : p->t) { double z = t.second.get_d(); for (u32 m : monos[t.first]) for (u32 e = 0; e < (m & 1023); e++) z *= vv[m >> 10]; s += z; mag += std::fabs(z); } return s; };
  for (size_t i = 0; i < n; i += step) {
    double mg, s = ev(ex[i].n, mg), d = 1, cond = mg;
    for (auto &f : ex[i].d) { double m2, z = ev(facs[f.first], m2); if (std::fabs(z) < 1e-6 * m2) { d = 0; break; } for (u32 k = 0; k < f.second; k++) { d *= z; cond *= 1; } }
    if (d == 0 || !(std::fabs(ex[i].sh) < 1e100)) continue;
    double v = s / d, tol = 1e-6 * (std::fabs(cond / d) + std::fabs(ex[i].sh));
    if (std::fabs(v - ex[i].sh) <= tol) S->shadow_ok++; else S->shadow_bad++;
  }
}
static long envl(const char *n, long d) { const char *s = getenv(n); return s ? atol(s) : d; }
static void report(double t0) {
  FILE *f = fopen((OUT + "/stats.txt").c_str(), "w");
  if (!f) return;
#define P(x) fprintf(f, #x " %lu\n", (unsigned long)S->x.load());
  P(paths) P(dropped) P(cut) P(forks) P(branches) P(implied) P(q_branch) P(q_oblig) P(q_sat) P(q_unsat) P(q_unknown) P(crashes) P(unsure) P(infeasible)
  P(shadow_ok) P(shadow_bad) P(ops) P(maxterms) P(defs) P(concr) P(procs) P(xq) P(xagree) P(xdis) P(ncex) P(lblover) P(killed)
  fprintf(f, "solver_ms %lu\nwall_ms %lu\n", (unsigned long)(S->ns / 1000000), (unsigned long)((now() - t0) * 1000));
  for (auto &l : S->lab) if (l.used == 2)
    fprintf(f, "LABEL\t%s\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\n", l.name, (unsigned long)l.reach, (unsigned long)l.ok, (unsigned long)l.ident, (unsigned long)l.small, (unsigned long)l.fail, (unsigned long)l.unknown);
  for (auto &l : S->fn) if (l.used == 2) fprintf(f, "FN\t%s\n", l.name);
  fclose(f);
}
int main() {
  S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof *S);
  double t0 = now();
  if (getenv("NK_OUT")) OUT = getenv("NK_OUT");
  MAXW = envl("NK_WORKERS", 8);
  S->deadline = t0 + envl("NK_BUDGET", 120);
  RL_BRANCH = envl("NK_RL_BRANCH", 2000000); RL_OBL = envl("NK_RL_OBL", 30000000);
  TL_BRANCH = envl("NK_TL_BRANCH", 6); TL_OBL = envl("NK_TL_OBL", 20);
  MAXCEX = envl("NK_MAXCEX", 3);
  TERMCAP = envl("NK_TERMCAP", 6000);
  XCHK = envl("NK_XCHK", 0);
  thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  rs ^= (u64)envl("VERIF_SEED", 1) * 0x9E3779B97F4A7C15ull;
  P0 = mkp({}); P1 = pconst(1);
  if (!getenv("NK_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) return 3; }
  pid_t root = fork();
  if (root == 0) {
    setpgid(0, 0);
    own_slot = true; S->active = 1; S->procs = 1;
    zinit();
    std::set_terminate(on_term);
    static char alt[1 << 16];
    stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
    struct sigaction sb; memset(&sb, 0, sizeof sb); sb.sa_handler = on_alarm; sb.sa_flags = SA_RESTART; sigaction(SIGALRM, &sb, 0);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
    struct sigaction sc; memset(&sc, 0, sizeof sc); sc.sa_flags = SA_RESTART | SA_ONSTACK;
    sc.sa_handler = on_tick; sigaction(SIGVTALRM, &sc, 0); sc.sa_handler = on_stop; sigaction(SIGUSR1, &sc, 0);
    if (!__sanitizer_set_death_callback) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_DATA, &rl); }
    arm_tick();
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_asan);
    nk_harness();
    if (unsure_path) path_feasible();
    S->paths++;
    shadow_all();
    sample();
    path_exit(0);
  }
  int st; double hard = S->deadline + envl("NK_GRACE", 60);
  while (waitpid(root, &st, WNOHANG) == 0) {
    if (now() > hard) { S->killed = 1; kill(-root, SIGUSR1); for (int i = 0; i < 60; i++) usleep(50000); kill(-root, SIGKILL); waitpid(root, &st, 0); break; }
    usleep(20000);
  }
  report(t0);
  return 0;
}
