// Symbolic-execution runtime (linked with instrumented harnesses).
#include "cas.h"
#include <z3.h>
#include <cassert>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
using namespace cas;

enum Kind { KREAL, KFP, KBV, KBOOL, KBOX };
typedef std::vector<uint32_t> Sup;
struct Sh { Kind k; int w; Z3_ast a; RF *rf; Sup sup; std::vector<Sh *> box; };

extern "C" { void *__sym_args[64]; void *__sym_ret[64]; void *__sym_target; void *__sym_retfrom; }

// ---------------------------------------------------------------- globals
static Z3_context C;
static Z3_sort REALS, BOOLS, F64, F32;
static int outfd = 2;
static bool fpMode = false, snapConst = true;
static double deadline = 1e18; static long maxPaths = 20000;
struct Shared {
  volatile long tokens, paths, forks, queries, unknown, checks, chkSolver, chkNorm, violations, truncated, unsupported, infeasible, pathSamples, reduced, maxdepth, aborted;
  volatile long ivDecided; volatile long solver_us; volatile long nreach; char reach[64][48]; volatile long reachCnt[64];
  volatile long pathsEnded; volatile long divforks; volatile long decisions; volatile long crashes;
};
static Shared *S;
struct VarInfo { std::string name; Z3_ast a; bool hasLo, hasHi; mpq_class lo, hi; int kind; /*0 real,1 bv,2 fp,3 bool*/ int w; bool input; std::function<double()> nat; };
static std::vector<VarInfo> V;
struct Con { Z3_ast a; Sup sup; bool isDef; };
static std::vector<Con> PC;
struct FnApp { std::string name; RF arg; std::vector<RF> args; Var v; };
static std::vector<FnApp> fnApps;
static std::vector<std::pair<std::string, Sh *>> observes;
static std::vector<std::pair<std::string, double>> observesC;
static std::vector<std::string> pathDesc;
static long depth = 0;
static std::vector<pid_t> kids;
static std::string caseName = "main";
static unsigned rlimit_branch = 3000000, rlimit_check = 30000000;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void out(const std::string &s) { std::string l = s + "\n"; (void)!write(outfd, l.data(), l.size()); }
static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); out("{\"t\":\"z3error\",\"msg\":\"" + jesc(Z3_get_error_msg(c, e)) + "\"}"); _exit(70); }

static volatile bool inSolver = false;
static void onAlarm(int) { if (inSolver) Z3_interrupt(C); }

static Sup merge(const Sup &a, const Sup &b) { Sup r; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
static Sh *mkSh(Kind k, int w, Z3_ast a, Sup s) { Sh *h = new Sh{k, w, a, nullptr, std::move(s), {}}; if (a) Z3_inc_ref(C, a); return h; }
static Sh *mkReal(const RF &r);

static Z3_ast num(const mpq_class &q) { Z3_ast a = Z3_mk_numeral(C, q.get_str().c_str(), REALS); return a; }
static Z3_ast zand(std::vector<Z3_ast> v) { if (v.empty()) return Z3_mk_true(C); if (v.size() == 1) return v[0]; return Z3_mk_and(C, v.size(), v.data()); }
static Z3_ast zor(std::vector<Z3_ast> v) { if (v.empty()) return Z3_mk_false(C); if (v.size() == 1) return v[0]; return Z3_mk_or(C, v.size(), v.data()); }

static Z3_ast monoAst(const Mono &m) {
  std::vector<Z3_ast> f; for (auto &p : m.f) for (uint32_t i = 0; i < p.second; i++) f.push_back(V[p.first].a);
  if (f.size() == 1) return f[0]; return Z3_mk_mul(C, f.size(), f.data());
}
static Z3_ast polyAst(const Poly &p) {
  if (p.zero()) return num(0);
  std::vector<Z3_ast> s;
  for (auto &t : p.t) {
    if (t.first.f.empty()) { s.push_back(num(t.second)); continue; }
    Z3_ast m = monoAst(t.first);
    if (t.second == 1) s.push_back(m); else { Z3_ast a[2] = {num(t.second), m}; s.push_back(Z3_mk_mul(C, 2, a)); }
  }
  return s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data());
}
static Sup polySup(const Poly &p) { return p.vars(); }
static Poly denOdd(const std::map<int, int> &d) { Poly r(mpq_class(1)); for (auto &p : d) if (p.second % 2) r = mul(r, dens().p[p.first]); return r; }
static Sup rfSup(const RF &r) { Sup s = r.n.vars(); for (auto &p : r.d) s = merge(s, dens().p[p.first].vars()); return s; }

// ---------------------------------------------------------------- vars
static Var newVar(const std::string &name, int kind, int w = 0) {
  Z3_sort so = kind == 0 ? REALS : kind == 1 ? Z3_mk_bv_sort(C, w) : kind == 2 ? (w == 32 ? F32 : F64) : BOOLS;
  std::string nm = name + "#" + std::to_string(V.size());
  Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), so); Z3_inc_ref(C, a);
  V.push_back({name, a, false, false, 0, 0, kind, w, false, nullptr});
  return V.size() - 1;
}
static void addCon(Z3_ast a, Sup s, bool def = false) { Z3_inc_ref(C, a); PC.push_back({a, std::move(s), def}); }

// ---------------------------------------------------------------- polynomial sign by intervals (cheap pre-check, sound)
static bool ivPoly(const Poly &p, mpq_class &lo, mpq_class &hi) { // exact enclosure over the variables' declared bounds; false: some variable unbounded
  lo = hi = 0;
  for (auto &t : p.t) {
    mpq_class l = 1, h = 1;
    for (auto &f : t.first.f) {
      auto &v = V[f.first]; if (!v.hasLo || !v.hasHi) return false;
      mpq_class a = 1, b = 1; for (uint32_t i = 0; i < f.second; i++) { a *= v.lo; b *= v.hi; }
      mpq_class x, y;
      if (f.second % 2) { x = a; y = b; } else if (v.lo >= 0) { x = a; y = b; } else if (v.hi <= 0) { x = b; y = a; } else { x = 0; y = std::max(a, b); }
      mpq_class c[4] = {l * x, l * y, h * x, h * y}; l = h = c[0]; for (int i = 1; i < 4; i++) { if (c[i] < l) l = c[i]; if (c[i] > h) h = c[i]; }
    }
    if (t.second > 0) { lo += t.second * l; hi += t.second * h; } else { lo += t.second * h; hi += t.second * l; }
  }
  return true;
}

// ---------------------------------------------------------------- solver
struct Res { int r; /*1 sat 0 unsat -1 unknown*/ };
static std::map<std::vector<unsigned>, int> qcache;
static bool isNonlin(const std::vector<Con *> &cs);

static std::vector<Con *> sliceFor(const Sup &sup0) {
  std::vector<Con *> r; std::vector<char> in(PC.size(), 0); std::set<uint32_t> s(sup0.begin(), sup0.end());
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < PC.size(); i++) if (!in[i]) {
      bool hit = PC[i].sup.empty();
      for (uint32_t v : PC[i].sup) if (s.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; for (uint32_t v : PC[i].sup) if (s.insert(v).second) ch = true; ch = true; }
    } }
  for (size_t i = 0; i < PC.size(); i++) if (in[i]) r.push_back(&PC[i]);
  return r;
}
static double branchTmo = 3;
static Z3_solver mkSolver(const std::set<uint32_t> &vars, unsigned rlim, bool nonlin) {
  bool bv = false, fp = false, re = false;
  for (uint32_t v : vars) { if (V[v].kind == 0) re = true; else if (V[v].kind == 2) fp = true; else bv = true; }
  Z3_solver s;
  if (re && !bv && !fp) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, nonlin ? "QF_NRA" : "QF_LRA"));
  else if (fp && !re) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FP"));
  else if (bv && !re && !fp) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  else s = Z3_mk_solver(C);
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rlim);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  return s;
}
static bool dbg = false;
static std::set<unsigned> nonlinAst; // ids of asserted asts containing nonlinear monomials
static void markNonlin(Z3_ast a) { nonlinAst.insert(Z3_get_ast_id(C, a)); }
static bool alarmHit = false;
static int solve(const std::vector<Con *> &cs, const std::vector<Z3_ast> &extra, const Sup &esup, unsigned rlim, Z3_model *mod = nullptr, double tmo = 20) {
  std::vector<unsigned> key; for (auto *c : cs) key.push_back(Z3_get_ast_id(C, c->a)); for (auto a : extra) key.push_back(Z3_get_ast_id(C, a));
  std::sort(key.begin(), key.end());
  if (!mod) { auto it = qcache.find(key); if (it != qcache.end()) return it->second; }
  std::set<uint32_t> vars(esup.begin(), esup.end()); for (auto *c : cs) vars.insert(c->sup.begin(), c->sup.end());
  bool nl = false; for (unsigned k : key) if (nonlinAst.count(k)) nl = true;
  Z3_solver s = mkSolver(vars, rlim, nl);
  for (auto *c : cs) Z3_solver_assert(C, s, c->a);
  for (auto a : extra) Z3_solver_assert(C, s, a);
  double t0 = now(); double rem = std::min(tmo, std::max(0.5, deadline - t0));
  itimerval tv{}; tv.it_value.tv_sec = (long)rem; tv.it_value.tv_usec = (long)((rem - (long)rem) * 1e6); tv.it_interval.tv_sec = 1; 
  inSolver = true; setitimer(ITIMER_REAL, &tv, nullptr);
  Z3_lbool r = Z3_solver_check(C, s);
  itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); inSolver = false;
  double dt = now() - t0; __sync_fetch_and_add(&S->queries, 1); __sync_fetch_and_add(&S->solver_us, (long)(dt * 1e6));
  int rr = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (rr < 0) __sync_fetch_and_add(&S->unknown, 1);
  if (dbg && dt > 0.3) fprintf(stderr, "[%s] query %.2fs -> %d (nl=%d, %zu cons)\n", caseName.c_str(), dt, rr, nl, cs.size());
  if (getenv("SYM_DUMP") && dt > atof(getenv("SYM_DUMP"))) fprintf(stderr, "%s\n", Z3_solver_to_string(C, s));
  if (mod) { *mod = nullptr; if (rr == 1) { *mod = Z3_solver_get_model(C, s); if (*mod) Z3_model_inc_ref(C, *mod); } }
  else qcache[key] = rr;
  Z3_solver_dec_ref(C, s);
  return rr;
}
static int feasible(Z3_ast c, const Sup &sup) { Z3_inc_ref(C, c); auto sl = sliceFor(sup); return solve(sl, {c}, sup, rlimit_branch, nullptr, branchTmo); }

// ---------------------------------------------------------------- shadows
static Sh *mkReal(const RF &r) {
  Sh *h = new Sh{KREAL, 64, nullptr, new RF(r), {}, {}}; return h;
}
static RF rfOf(double c, void *s) {
  if (!s) return RF(toQ(c, snapConst));
  Sh *h = (Sh *)s;
  if (h->k != KREAL) { out("{\"t\":\"unsupported\",\"what\":\"non-real shadow in real op\"}"); __sync_fetch_and_add(&S->unsupported, 1); _exit(71); }
  return *h->rf;
}
static void retS(Sh *s) { __sym_ret[0] = s; }
[[noreturn]] static void endPath(int code);
[[noreturn]] static void unsupportedExit(const std::string &w) {
  __sync_fetch_and_add(&S->unsupported, 1); out("{\"t\":\"unsupported\",\"what\":\"" + jesc(w) + "\"}"); endPath(0);
}
// shadow for a real: constant fractions become concrete
static Sh *realOrNull(const RF &r, double &conc) { if (r.isConst()) { conc = r.n.constant().get_d(); if (toQ(conc, snapConst) == r.n.constant()) return nullptr; return mkReal(r); } return mkReal(r); }

// single-variable linear atoms: the bound they put on their variable, learned when the atom is taken on a path
struct BInfo { Var v; int rel; mpq_class k; };
static std::map<unsigned, BInfo> bInfo;
static void learn(Z3_ast a) {
  auto it = bInfo.find(Z3_get_ast_id(C, a)); if (it == bInfo.end()) return;
  auto &b = it->second; auto &v = V[b.v];
  if (b.rel == 0 || b.rel == 1 || b.rel == 2) if (!v.hasHi || b.k < v.hi) { v.hasHi = true; v.hi = b.k; }
  if (b.rel == 0 || b.rel == 3 || b.rel == 4) if (!v.hasLo || b.k > v.lo) { v.hasLo = true; v.lo = b.k; }
}
struct Cond { bool isConst, val; Z3_ast a; Sup sup; bool nl; };
static Cond polyRel(const Poly &p, int rel) { // rel: 0 '=', 1 '<', 2 '<=', 3 '>', 4 '>=', 5 '!='
  if (p.isConst()) { int s = sgn(p.constant()); bool v = rel == 0 ? s == 0 : rel == 1 ? s < 0 : rel == 2 ? s <= 0 : rel == 3 ? s > 0 : rel == 4 ? s >= 0 : s != 0; return {true, v, v ? Z3_mk_true(C) : Z3_mk_false(C), {}, false}; }
  if (p.t.size() < 400) {
    mpq_class lo, hi;
    if (ivPoly(p, lo, hi)) {
      int v = -1; // relation decided by the enclosure alone?
      switch (rel) {
        case 0: case 5: if (lo > 0 || hi < 0) v = rel == 5; break;
        case 1: if (hi < 0) v = 1; else if (lo >= 0) v = 0; break;
        case 2: if (hi <= 0) v = 1; else if (lo > 0) v = 0; break;
        case 3: if (lo > 0) v = 1; else if (hi <= 0) v = 0; break;
        case 4: if (lo >= 0) v = 1; else if (hi < 0) v = 0; break;
      }
      if (v >= 0) { __sync_fetch_and_add(&S->ivDecided, 1); return {true, v == 1, v == 1 ? Z3_mk_true(C) : Z3_mk_false(C), {}, false}; }
    }
  }
  Poly m = scale(p, 1 / abs(p.lc()));
  // trivial: monomial content with known nonzero / even powers is left to the solver
  Z3_ast t = polyAst(m), z = num(0), a;
  switch (rel) { case 0: a = Z3_mk_eq(C, t, z); break; case 1: a = Z3_mk_lt(C, t, z); break; case 2: a = Z3_mk_le(C, t, z); break; case 3: a = Z3_mk_gt(C, t, z); break; case 4: a = Z3_mk_ge(C, t, z); break; default: a = Z3_mk_not(C, Z3_mk_eq(C, t, z)); }
  Z3_inc_ref(C, a);
  if (m.degree() == 1 && m.t.size() <= 2) { Var v = 0; mpq_class c0 = 0, c1 = 0; int nv = 0; for (auto &t : m.t) { if (t.first.f.empty()) c0 = t.second; else { v = t.first.f[0].first; c1 = t.second; nv++; } }
    if (nv == 1 && V[v].kind == 0) { static const int flip[6] = {0, 3, 4, 1, 2, 5}, no[6] = {5, 4, 3, 2, 1, 0}; int r = c1 < 0 ? flip[rel] : rel; mpq_class k = -c0 / c1; Z3_ast n = Z3_mk_not(C, a); Z3_inc_ref(C, n); bInfo[Z3_get_ast_id(C, a)] = {v, r, k}; bInfo[Z3_get_ast_id(C, n)] = {v, no[r], k}; } }
  bool nl = m.degree() > 1; if (nl) { markNonlin(a); Z3_ast n = Z3_mk_not(C, a); Z3_inc_ref(C, n); markNonlin(n); }
  return {false, false, a, m.vars(), nl};
}
static std::map<int, int> denSign; // den id -> known sign on this path
static int knownSign(int id);
static Cond rfRel(const RF &r, int rel) { // r rel 0
  if (r.d.empty() || rel == 0 || rel == 5) return polyRel(r.n, rel);
  Poly p = r.n; mpq_class sg = 1;
  for (auto &d : r.d) if (d.second % 2) { int s = knownSign(d.first); if (s > 0) continue; if (s < 0) { sg = -sg; continue; } p = mul(p, dens().p[d.first]); }
  return polyRel(scale(p, sg), rel);
}
static int knownSign(int id) {
  auto it = denSign.find(id); if (it != denSign.end()) return it->second;
  const Poly &p = dens().p[id]; int r = 0;
  Cond neg = polyRel(p, 1), pos = polyRel(p, 3);
  if (neg.isConst || pos.isConst) return (neg.isConst ? neg.val : !pos.val) ? -1 : (pos.isConst ? pos.val : !neg.val) ? 1 : 0; // a denominator is not 0
  if (feasible(neg.a, neg.sup) == 0) r = 1; else if (feasible(pos.a, pos.sup) == 0) r = -1;
  if (r) denSign[id] = r; // sign 0 is not cached: later constraints may fix it
  return r;
}
static Sh *boolOf(const Cond &c) { if (c.isConst) return mkSh(KBOOL, 1, c.val ? Z3_mk_true(C) : Z3_mk_false(C), {}); return mkSh(KBOOL, 1, c.a, c.sup); }

// ---------------------------------------------------------------- model printing
static std::string rstr(Z3_ast v) {
  Z3_sort_kind sk = Z3_get_sort_kind(C, Z3_get_sort(C, v));
  if (sk == Z3_REAL_SORT) {
    if (Z3_is_numeral_ast(C, v)) return Z3_get_numeral_string(C, v);
    if (Z3_is_algebraic_number(C, v)) { Z3_ast q = Z3_get_algebraic_number_lower(C, v, 40); return Z3_get_numeral_string(C, q); }
    return "0";
  }
  if (sk == Z3_BV_SORT) return Z3_get_numeral_string(C, v);
  if (sk == Z3_BOOL_SORT) return Z3_get_bool_value(C, v) == Z3_L_TRUE ? "1" : "0";
  if (sk == Z3_FLOATING_POINT_SORT) { Z3_ast b = Z3_simplify(C, Z3_mk_fpa_to_ieee_bv(C, v)); if (Z3_is_numeral_ast(C, b)) return std::string("bits:") + Z3_get_numeral_string(C, b); return "bits:9221120237041090560"; }
  return "0";
}
static mpq_class parseQ(const std::string &s) { mpq_class q; if (q.set_str(s, 10) != 0) return 0; q.canonicalize(); return q; }
static std::vector<int> inputs; // var ids in creation order
typedef std::map<uint32_t, std::string> Mod;
// solve the whole PC (+extra) component-wise
static int fullModel(const std::vector<Z3_ast> &extra, const Sup &esup, Mod &m, unsigned rlim, double tmo) {
  std::vector<char> done(PC.size(), 0);
  auto grab = [&](const std::vector<Con *> &cs, const Sup &es, Z3_model mod) {
    std::set<uint32_t> vars(es.begin(), es.end()); for (auto *c : cs) vars.insert(c->sup.begin(), c->sup.end());
    for (uint32_t v : vars) { Z3_ast o; if (Z3_model_eval(C, mod, V[v].a, true, &o)) m[v] = rstr(o); }
  };
  auto sl = sliceFor(esup); Z3_model mod;
  if (!extra.empty()) { int r = solve(sl, extra, esup, rlim, &mod, tmo); if (r != 1) return r; grab(sl, esup, mod); for (auto *c : sl) done[c - &PC[0]] = 1; }
  for (size_t i = 0; i < PC.size(); i++) if (!done[i]) {
    auto s2 = sliceFor(PC[i].sup); int r = solve(s2, {}, PC[i].sup, rlim, &mod, tmo); if (r != 1) return r;
    grab(s2, PC[i].sup, mod); for (auto *c : s2) done[c - &PC[0]] = 1;
  }
  return 1;
}
static double evalPoly(const Poly &p, const Mod &m) { // exact rational evaluation
  mpq_class s = 0; for (auto &t : p.t) { mpq_class x = t.second; for (auto &f : t.first.f) { auto it = m.find(f.first); mpq_class v = it == m.end() ? mpq_class(0) : parseQ(it->second); for (uint32_t i = 0; i < f.second; i++) x *= v; } s += x; } return s.get_d();
}
static double evalRF(const RF &r, const Mod &m) { double d = 1; for (auto &p : r.d) { double x = evalPoly(dens().p[p.first], m); for (int i = 0; i < p.second; i++) d *= x; } return evalPoly(r.n, m) / d; }
static std::string dstr(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static std::string modelJson(const Mod &m) {
  std::string s = "\"inputs\":[";
  bool f = true;
  for (int v : inputs) {
    auto it = m.find(v); std::string val;
    if (it == m.end()) { val = "0"; if (V[v].kind == 0 && V[v].hasLo && V[v].lo > 0) val = V[v].lo.get_str(); else if (V[v].kind == 0 && V[v].hasHi && V[v].hi < 0) val = V[v].hi.get_str(); } else val = it->second;
    if (V[v].kind == 0) val = dstr(parseQ(val).get_d());
    if (!f) s += ","; f = false; s += "[\"" + jesc(V[v].name) + "\",\"" + val + "\"," + std::to_string(V[v].kind) + "," + std::to_string(V[v].w) + "]";
  }
  s += "],\"fns\":["; f = true;
  for (auto &a : fnApps) {
    if (!f) s += ","; f = false; s += "[\"" + a.name + "\",[";
    for (size_t i = 0; i < a.args.size(); i++) s += (i ? "," : "") + ("\"" + dstr(evalRF(a.args[i], m)) + "\"");
    auto it = m.find(a.v); s += "],\"" + dstr(it == m.end() ? 0.0 : parseQ(it->second).get_d()) + "\"]";
  }
  s += "]"; return s;
}

// ---------------------------------------------------------------- fork / path control
static void waitKids() { for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { __sync_fetch_and_add(&S->aborted, 1); out("{\"t\":\"abort\",\"status\":" + std::to_string(st) + "}"); } } kids.clear(); }
static bool hasToken = false;
static pid_t rootPid = 0;
static void summary() {
    std::string s = "{\"t\":\"summary\",\"case\":\"" + jesc(caseName) + "\"";
#define F(x) s += ",\"" #x "\":" + std::to_string(S->x);
    F(paths) F(pathsEnded) F(forks) F(queries) F(unknown) F(checks) F(chkSolver) F(chkNorm) F(violations) F(truncated) F(unsupported) F(infeasible) F(reduced) F(aborted) F(maxdepth) F(divforks) F(decisions) F(crashes) F(ivDecided) F(solver_us)
    s += ",\"reach\":{"; for (int i = 0; i < S->nreach && i < 64; i++) s += (i ? ",\"" : "\"") + jesc(S->reach[i]) + "\":" + std::to_string(S->reachCnt[i]); s += "}}"; out(s);
}
static void endPath(int code) {
  fflush(stdout);
  waitKids();
  if (getpid() == rootPid) summary();
  if (hasToken) __sync_fetch_and_add(&S->tokens, 1);
  _exit(code);
}
// returns true in child
static bool forkPath() {
  if (S->paths >= maxPaths || now() > deadline) { __sync_fetch_and_add(&S->truncated, 1); return false; }
  __sync_fetch_and_add(&S->paths, 1); __sync_fetch_and_add(&S->forks, 1);
  bool tok = false; 
  for (;;) { long t = S->tokens; if (t <= 0) break; if (__sync_bool_compare_and_swap(&S->tokens, t, t - 1)) { tok = true; break; } }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { if (tok) __sync_fetch_and_add(&S->tokens, 1); __sync_fetch_and_add(&S->truncated, 1); return false; }
  if (p == 0) { kids.clear(); hasToken = tok; return true; }
  if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { __sync_fetch_and_add(&S->aborted, 1); out("{\"t\":\"abort\",\"status\":" + std::to_string(st) + "}"); } }
  else kids.push_back(p);
  return false;
}
static void pushCond(Z3_ast a, const Sup &s) { addCon(a, s); learn(a); depth++; if (depth > S->maxdepth) S->maxdepth = depth; }
static long lastPathMark = 0;
static bool decide(Z3_ast a, const Sup &sup) {
  Z3_ast na = Z3_mk_not(C, a); Z3_inc_ref(C, na); if (nonlinAst.count(Z3_get_ast_id(C, a))) markNonlin(na);
  for (auto &c : PC) { if (c.a == a) return true; if (c.a == na) return false; }
  __sync_fetch_and_add(&S->decisions, 1);
  if (now() > deadline) { __sync_fetch_and_add(&S->truncated, 1); endPath(0); }
  int ft = feasible(a, sup);
  if (ft == 0) { learn(na); return false; } // PC implies !a
  int ff = feasible(na, sup);
  if (ff == 0) { learn(a); return true; }
  bool inChild = forkPath();
  if (inChild) { pushCond(a, sup); return true; }
  pushCond(na, sup); return false;
}
static bool decideC(const Cond &c) { return c.isConst ? c.val : decide(c.a, c.sup); }

// integer k with k <= r < k+1, forking
static mpz_class floorFork(const RF &r) {
  if (r.isConst()) { mpz_class q; mpq_class c = r.n.constant(); mpz_fdiv_q(q.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); return q; }
  for (int it = 0; it < 200; it++) {
    // get a model value
    Mod m; Sup sup = rfSup(r); auto sl = sliceFor(sup); Z3_model mod; int rr = solve(sl, {}, sup, rlimit_branch, &mod, 10);
    double val = 0;
    if (rr == 1) { std::set<uint32_t> vars(sup.begin(), sup.end()); for (uint32_t v : vars) { Z3_ast o; if (Z3_model_eval(C, mod, V[v].a, true, &o)) m[v] = rstr(o); } val = evalRF(r, m); }
    else unsupportedExit("floor: no model");
    mpz_class k(std::floor(val));
    RF lo = addsub(r, RF(mpq_class(k)), true), hi = addsub(r, RF(mpq_class(k + 1)), true);
    Cond c1 = rfRel(lo, 4), c2 = rfRel(hi, 1);
    if (c1.isConst && c2.isConst) return k;
    std::vector<Z3_ast> as; Sup ss; bool nl = false; for (Cond *c : {&c1, &c2}) if (!c->isConst) { as.push_back(c->a); ss = merge(ss, c->sup); nl |= c->nl; }
    Z3_ast both = zand(as); Z3_inc_ref(C, both); if (nl) markNonlin(both);
    if (decide(both, ss)) return k;
  }
  unsupportedExit("floor: too many integer values");
}

// ---------------------------------------------------------------- math on fractions
static RF sqrtRF(const RF &x, bool assumeNonneg);
static bool absFork = false;
static std::map<std::string, Var> absMemo;
static RF absRF(const RF &x0) {
  if (x0.isConst()) { RF r(abs(x0.n.constant())); return r; }
  RF x = x0; if (sgn(x.n.lc()) < 0) x = neg(x); // |x| = |-x|
  Cond c = rfRel(x, 1);
  if (absFork) return decideC(c) ? neg(x) : x;
  if (c.isConst) return c.val ? neg(x) : x;
  for (auto &k : PC) if (k.a == c.a) return neg(x);
  std::string key = x.key(); auto it = absMemo.find(key); 
  Cond cp = rfRel(x, 3);
  if (cp.isConst) return cp.val ? x : neg(x);
  if (feasible(c.a, c.sup) == 0) return x;
  if (!cp.isConst && feasible(cp.a, cp.sup) == 0) return neg(x);
  if (it != absMemo.end()) return RF(Poly::var(it->second));
  // t = |x| = c * |num| / |den|: constant factored out so that multiples share the variable
  mpq_class k = abs(x.n.lc()); RF u = mulRF(RF(mpq_class(1 / k)), x);
  if (k != 1) { RF r = mulRF(RF(k), absRF(u)); return r; }
  bool poly = x.d.empty();
  Var v = newVar("abs", 0); V[v].hasLo = true; V[v].lo = 0; absMemo[key] = v;
  if (poly) { Poly x2 = mul(x.n, x.n); rels()[v] = {2, x2}; }
  Z3_ast t = V[v].a, n, nn; Sup sp = merge(rfSup(x), Sup{v}); std::sort(sp.begin(), sp.end());
  if (poly) {
    bool bl = true; mpq_class tot = 0; for (auto &m : x.n.t) { mpq_class B = abs(m.second); for (auto &f : m.first.f) { if (!V[f.first].hasLo || !V[f.first].hasHi) { bl = false; break; } mpq_class mx = std::max(abs(V[f.first].lo), abs(V[f.first].hi)); for (uint32_t i = 0; i < f.second; i++) B *= mx; } if (!bl) break; tot += B; }
    if (bl) { V[v].hasHi = true; V[v].hi = tot; }
    n = polyAst(x.n); nn = polyAst(scale(x.n, -1));
    Z3_ast con = zand({Z3_mk_ge(C, t, num(0)), zor({Z3_mk_eq(C, t, n), Z3_mk_eq(C, t, nn)})}); addCon(con, sp, true); if (x.n.degree() > 1) markNonlin(con);
  } else { // t*den = +-num
    Poly den = mul(Poly::var(v), denPoly(x.d)); Z3_ast d = polyAst(den); n = polyAst(x.n); nn = polyAst(scale(x.n, -1));
    Z3_ast con = zand({Z3_mk_ge(C, t, num(0)), zor({Z3_mk_eq(C, d, n), Z3_mk_eq(C, d, nn)})}); addCon(con, sp, true); markNonlin(con);
  }
  return RF(Poly::var(v));
}
static std::map<std::string, Var> sqrtMemo; // poly key -> var
static std::map<std::string, Var> ufMemo;
static RF sqrtPoly(Poly p) { // p >= 0 known, nonconstant allowed
  if (p.isConst()) {
    mpq_class c = p.constant(), r; if (qsqrt(c, r)) return RF(r);
    return RF(mpq_class(std::sqrt(c.get_d())));
  }
  // pull out constant, make monic
  mpq_class c = abs(p.lc()); Poly m = scale(p, 1 / c); mpq_class cr; RF pre(mpq_class(1));
  // choose constant so that remaining part has square content when possible
  if (qsqrt(c, cr)) pre = RF(cr); else m = p; // keep whole radicand
  // even monomial content
  std::map<Var, uint32_t> mn; bool first = true;
  for (auto &t : m.t) { std::map<Var, uint32_t> cur; for (auto &q : t.first.f) cur[q.first] = q.second;
    if (first) { mn = cur; first = false; } else for (auto it = mn.begin(); it != mn.end();) { auto z = cur.find(it->first); if (z == cur.end()) it = mn.erase(it); else { it->second = std::min(it->second, z->second); ++it; } } }
  Mono half, full; for (auto &q : mn) if (q.second / 2) { half.f.push_back({q.first, q.second / 2}); full.f.push_back({q.first, q.second / 2 * 2}); }
  if (!half.f.empty()) { Poly r; for (auto &t : m.t) { Mono x; mdiv(t.first, full, x); r.t.emplace(x, t.second); } m = r; Poly h; h.t[half] = 1; pre = mulRF(pre, absRF(RF(h))); if (m.isConst()) return mulRF(pre, sqrtPoly(m)); }
  Poly s; if (psqrt(m, s)) return mulRF(pre, absRF(RF(s)));
  // pull out square factors d^2 for registered denominators d (keeps nested radicals small)
  for (size_t i = 0; i < dens().p.size(); i++) { const Poly &d = dens().p[i]; if (d.t.size() < 2) continue; Poly d2 = mul(d, d), q; if (pdiv(m, d2, q)) { RF ad = absRF(RF(d)); return mulRF(pre, mulRF(ad, sqrtPoly(q))); } }
  std::string k = m.key(); auto it = sqrtMemo.find(k);
  if (it != sqrtMemo.end()) return mulRF(pre, RF(Poly::var(it->second)));
  Var v = newVar("sqrt", 0); sqrtMemo[k] = v; rels()[v] = {2, m};
  V[v].hasLo = true; V[v].lo = 0;
  Z3_ast sq[2] = {V[v].a, V[v].a}; Z3_ast e[2] = {Z3_mk_ge(C, V[v].a, num(0)), Z3_mk_eq(C, Z3_mk_mul(C, 2, sq), polyAst(m))};
  Z3_ast con = Z3_mk_and(C, 2, e); Sup sp = merge(m.vars(), Sup{v}); std::sort(sp.begin(), sp.end()); addCon(con, sp, true); markNonlin(con);
  return mulRF(pre, RF(Poly::var(v)));
}
static RF sqrtRF(const RF &x) {
  // sqrt(N/D) = sqrt(N*Dodd)/ (|Dhalf| * Dodd') with D = Dhalf^2 * Dodd
  std::map<int, int> h, o; for (auto &p : x.d) { if (p.second / 2) h[p.first] = p.second / 2; if (p.second % 2) o[p.first] = 1; }
  Poly n = x.n; std::map<int, int> den;
  if (!o.empty()) { // sqrt(N/Do) : if Do > 0 use sqrt(N)/sqrt(Do)
    bool allpos = true; for (auto &p : o) if (knownSign(p.first) <= 0) allpos = false;
    RF r;
    if (allpos) { r = sqrtPoly(n); for (auto &p : o) r = divRF(r, sqrtPoly(dens().p[p.first])); }
    else { Poly dp = denPoly(o); r = sqrtPoly(mul(n, dp)); r = divRF(r, absRF(RF(dp))); }
    for (auto &p : h) { RF ad = absRF(RF(dens().p[p.first])); for (int i = 0; i < p.second; i++) r = divRF(r, ad); }
    return r;
  }
  RF r = sqrtPoly(n);
  for (auto &p : h) { RF ad = absRF(RF(dens().p[p.first])); for (int i = 0; i < p.second; i++) r = divRF(r, ad); }
  return r;
}
// angles
struct Angle { RF s, c; };
struct Unit { mpq_class scale; Angle val; };
static std::map<std::string, Unit> units; // key of unit monomial fraction -> base angle (scale*unit)
static std::map<Var, Angle> angleOfVar;   // inverse-trig vars: sin/cos known
static Var bounded(const std::string &n, const mpq_class *lo, const mpq_class *hi) {
  Var v = newVar(n, 0); if (lo) { V[v].hasLo = true; V[v].lo = *lo; addCon(Z3_mk_ge(C, V[v].a, num(*lo)), {v}, true); } if (hi) { V[v].hasHi = true; V[v].hi = *hi; addCon(Z3_mk_le(C, V[v].a, num(*hi)), {v}, true); } return v;
}
static Angle angAdd(const Angle &a, const Angle &b) { return {addsub(mulRF(a.s, b.c), mulRF(a.c, b.s), false), addsub(mulRF(a.c, b.c), mulRF(a.s, b.s), true)}; }
static Angle angMul(const Angle &a, long n) { Angle r{RF(), RF(mpq_class(1))}; Angle b = a; bool ng = n < 0; if (ng) n = -n; while (n) { if (n & 1) r = angAdd(r, b); n >>= 1; if (n) b = angAdd(b, b); } if (ng) r.s = neg(r.s); return r; }
static Angle newAngle(const std::string &nm) {
  mpq_class m1 = -1, p1 = 1; Var s = bounded("sin_" + nm, &m1, &p1), c = bounded("cos_" + nm, &m1, &p1);
  // c^2 -> 1 - s^2
  rels()[c] = {2, Poly(mpq_class(1)) - ppow(Poly::var(s), 2)};
  Z3_ast s2[2] = {V[s].a, V[s].a}, c2[2] = {V[c].a, V[c].a}; Z3_ast sm[2] = {Z3_mk_mul(C, 2, s2), Z3_mk_mul(C, 2, c2)};
  Z3_ast con = Z3_mk_eq(C, Z3_mk_add(C, 2, sm), num(1)); addCon(con, {s, c}, true); markNonlin(con);
  return {RF(Poly::var(s)), RF(Poly::var(c))};
}
static Angle angleOf(const RF &x) {
  Angle r{RF(), RF(mpq_class(1))};
  const double PI = 3.14159265358979323846;
  for (auto &t : x.n.t) {
    if (x.d.empty() && t.first.f.empty()) {
      double c = t.second.get_d(), k = c / (PI / 2); double kr = std::round(k);
      Angle a; if (std::fabs(k - kr) < 1e-12 * std::max(1.0, std::fabs(k)) && std::fabs(kr) < 1e6) { int q = ((long)kr % 4 + 4) % 4; a = {RF(mpq_class(q == 1 ? 1 : q == 3 ? -1 : 0)), RF(mpq_class(q == 0 ? 1 : q == 2 ? -1 : 0))}; }
      else a = {RF(mpq_class(std::sin(c))), RF(mpq_class(std::cos(c)))};
      r = angAdd(r, a); continue;
    }
    RF u; u.n.t[t.first] = 1; u.d = x.d;
    mpq_class q = t.second;
    // 2*pi*k etc. multiples of pi are handled only as constants
    if (u.d.empty() && t.first.f.size() == 1 && t.first.f[0].second == 1 && angleOfVar.count(t.first.f[0].first) && q.get_den() == 1) { r = angAdd(r, angMul(angleOfVar[t.first.f[0].first], q.get_num().get_si())); continue; }
    if (u.d.empty() && t.first.f.size() == 1 && t.first.f[0].second == 1 && angleOfVar.count(t.first.f[0].first) && q.get_den() <= 4) { // a fraction of an inverse-trigonometric value: a new angle, tied by the multiple-angle formulas and its range
      Var bv = t.first.f[0].first; int d = (int)q.get_den().get_si(); std::string kf = "frac" + std::to_string(bv) + "/" + std::to_string(d); auto it = units.find(kf);
      if (it == units.end()) {
        Angle a = newAngle("f" + std::to_string(units.size())); units[kf] = {mpq_class(1), a}; it = units.find(kf);
        Angle m = angMul(a, d), w = angleOfVar[bv]; RF e1 = addsub(m.s, w.s, true), e2 = addsub(m.c, w.c, true);
        for (RF *e : {&e1, &e2}) { Cond c = rfRel(*e, 0); if (!c.isConst) { Sup sp = c.sup; addCon(c.a, sp, true); } }
        double lo = V[bv].hasLo ? V[bv].lo.get_d() / d : -PI / d, hi = V[bv].hasHi ? V[bv].hi.get_d() / d : PI / d, mx = std::max(std::fabs(lo), std::fabs(hi));
        if (mx <= PI + 1e-9) { mpq_class cm(std::cos(mx) - 1e-12); RF g = addsub(a.c, RF(cm), true); Cond c = rfRel(g, 4); if (!c.isConst) addCon(c.a, c.sup, true); if (lo >= 0) { Cond c2 = rfRel(a.s, 4); if (!c2.isConst) addCon(c2.a, c2.sup, true); } }
      }
      r = angAdd(r, angMul(it->second.val, q.get_num().get_si())); continue;
    }
    std::string k = u.key(); auto it = units.find(k);
    if (it == units.end()) { Angle a = newAngle("t" + std::to_string(units.size())); mpq_class sc = abs(q); if (sc.get_den() == 1) sc = 1; units[k] = {sc, a}; it = units.find(k); }
    mpq_class n = q / it->second.scale;
    if (n.get_den() != 1 || abs(n) > 64) {
      std::string k2 = k + "@" + q.get_str(); auto j = units.find(k2); if (j == units.end()) { units[k2] = {q, newAngle("u" + std::to_string(units.size()))}; j = units.find(k2); }
      r = angAdd(r, j->second.val); continue; }
    r = angAdd(r, angMul(it->second.val, n.get_num().get_si()));
  }
  return r;
}
static RF ufApp(const std::string &f, const std::vector<RF> &args, const mpq_class *lo = nullptr, const mpq_class *hi = nullptr, bool stub = false) {
  std::string k = f; for (auto &a : args) k += "|" + a.key();
  auto it = ufMemo.find(k); if (it != ufMemo.end()) return RF(Poly::var(it->second));
  // semantic functional consistency with earlier applications (Ackermann)
  for (auto &ap : fnApps) if (ap.name == f && ap.args.size() == args.size()) {
    bool same = true; for (size_t i = 0; i < args.size(); i++) { RF d = addsub(args[i], ap.args[i], true); if (!d.n.zero()) { same = false; break; } }
    if (same) { ufMemo[k] = ap.v; return RF(Poly::var(ap.v)); }
  }
  Var v = bounded(f, lo, hi); ufMemo[k] = v;
  for (auto &ap : fnApps) if (ap.name == f && ap.args.size() == args.size()) {
    std::vector<Z3_ast> ne; Sup sp{v, ap.v}; bool nl = false, impossible = false;
    for (size_t i = 0; i < args.size(); i++) { RF d = addsub(args[i], ap.args[i], true); Cond c = rfRel(d, 0); if (c.isConst) { if (!c.val) impossible = true; continue; } ne.push_back(Z3_mk_not(C, c.a)); sp = merge(sp, c.sup); nl |= c.nl; }
    if (impossible) continue;
    ne.push_back(Z3_mk_eq(C, V[v].a, V[ap.v].a)); std::sort(sp.begin(), sp.end()); Z3_ast o = zor(ne); Z3_inc_ref(C, o); addCon(o, sp, true); if (nl) markNonlin(o);
  }
  FnApp a; a.name = f; a.args = args; a.v = v; fnApps.push_back(a);
  return RF(Poly::var(v));
}
static mpq_class Qd(double d) { return mpq_class(d); }
static std::map<std::string, RF> expMemo; static std::map<Var, RF> logOfVar, argOfExp;
// log(c prod e_i^{k_i}) = log c + sum k_i u_i for exponentials e_i = exp(u_i)
static bool logOfExp(const RF &x, RF &out) {
  if (x.n.t.size() != 1) return false; mpq_class c = x.n.t.begin()->second; std::map<Var, long> k;
  for (auto &f : x.n.t.begin()->first.f) k[f.first] += f.second;
  for (auto &p : x.d) { const Poly &q = dens().p[p.first]; if (q.t.size() != 1) return false; for (int i = 0; i < p.second; i++) c /= q.t.begin()->second; for (auto &f : q.t.begin()->first.f) k[f.first] -= (long)f.second * p.second; }
  if (c <= 0 || k.empty()) return false; for (auto &f : k) if (!argOfExp.count(f.first)) return false;
  out = RF(c == 1 ? mpq_class(0) : mpq_class(std::log(c.get_d()))); for (auto &f : k) out = addsub(out, mulRF(argOfExp[f.first], RF(mpq_class(f.second))), false); return true;
}
static RF expRF(const RF &x) {
  // exp(sum q_i u_i) = prod e_i^{q_i}
  RF r(mpq_class(1));
  for (auto &t : x.n.t) {
    if (x.d.empty() && t.first.f.empty()) { r = mulRF(r, RF(mpq_class(std::exp(t.second.get_d())))); continue; }
    RF u; u.n.t[t.first] = 1; u.d = x.d; mpq_class q = t.second; 
    if (u.d.empty() && t.first.f.size() == 1 && t.first.f[0].second == 1 && logOfVar.count(t.first.f[0].first) && q.get_den() <= 2) {
      RF b = logOfVar[t.first.f[0].first]; if (q.get_den() == 2) b = sqrtRF(b); long n = q.get_num().get_si(); if (n < 0) { b = inv(b); n = -n; } for (long i = 0; i < n; i++) r = mulRF(r, b); continue; }
    std::string k = u.key();
    static std::map<std::string, std::pair<mpq_class, Var>> eu; auto it = eu.find(k);
    if (it == eu.end()) { mpq_class sc = abs(q); if (sc.get_den() == 1) sc = 1; mpq_class z = 0; Var v = newVar("exp", 0); V[v].hasLo = true; V[v].lo = 0; addCon(Z3_mk_gt(C, V[v].a, num(0)), {v}, true); eu[k] = {sc, v}; it = eu.find(k); argOfExp[v] = mulRF(RF(sc), u);
      // e >= 1 + x (sound for the real exponential)
      if (u.d.empty()) { RF arg = mulRF(RF(sc), u); Poly d = Poly::var(v) - (Poly(mpq_class(1)) + arg.n); Cond c = polyRel(d, 4); if (!c.isConst) addCon(c.a, c.sup, true); } }
    mpq_class n = q / it->second.first; if (n.get_den() != 1 || abs(n) > 64) { r = mulRF(r, ufApp("exp", {mulRF(RF(q), u)})); continue; }
    long m = n.get_num().get_si(); RF b(Poly::var(it->second.second)); if (m < 0) { b = inv(b); m = -m; } for (long i = 0; i < m; i++) r = mulRF(r, b);
  }
  return r;
}
static RF atan2RF(const RF &y, const RF &x) { // not both zero
  RF r = sqrtRF(addsub(mulRF(x, x), mulRF(y, y), false));
  std::string k = "atan2|" + y.key() + "|" + x.key(); auto it = ufMemo.find(k); if (it != ufMemo.end()) return RF(Poly::var(it->second));
  const mpq_class PI = Qd(3.14159265358979323846), NP = -PI; Var v = bounded("atan2", &NP, &PI); ufMemo[k] = v;
  // y > 0 <=> 0<v<pi ; y = 0 => v = 0 or pi
  Cond yp = rfRel(y, 3), yn = rfRel(y, 1), xp = rfRel(x, 3), xn = rfRel(x, 1);
  auto B = [&](const Cond &c) { return c.isConst ? (c.val ? Z3_mk_true(C) : Z3_mk_false(C)) : c.a; };
  Sup sp = merge(merge(yp.sup, xp.sup), Sup{v}); std::sort(sp.begin(), sp.end());
  Z3_ast T = V[v].a; Z3_ast h = num(PI / 2), nh = num(-PI / 2), z = num(0);
  std::vector<Z3_ast> cs;
  cs.push_back(Z3_mk_implies(C, B(yp), zand({Z3_mk_gt(C, T, z), Z3_mk_lt(C, T, num(PI))})));
  cs.push_back(Z3_mk_implies(C, B(yn), zand({Z3_mk_lt(C, T, z), Z3_mk_gt(C, T, num(NP))})));
  cs.push_back(Z3_mk_implies(C, B(xp), zand({Z3_mk_lt(C, T, h), Z3_mk_gt(C, T, nh)})));
  cs.push_back(Z3_mk_implies(C, B(xn), zor({Z3_mk_gt(C, T, h), Z3_mk_lt(C, T, nh)})));
  Z3_ast y0 = zand({Z3_mk_not(C, B(yp)), Z3_mk_not(C, B(yn))}), x0 = zand({Z3_mk_not(C, B(xp)), Z3_mk_not(C, B(xn))});
  cs.push_back(Z3_mk_implies(C, zand({y0, B(xp)}), Z3_mk_eq(C, T, z)));
  cs.push_back(Z3_mk_implies(C, zand({y0, B(xn)}), Z3_mk_eq(C, T, num(PI))));
  cs.push_back(Z3_mk_implies(C, zand({x0, B(yp)}), Z3_mk_eq(C, T, h)));
  cs.push_back(Z3_mk_implies(C, zand({x0, B(yn)}), Z3_mk_eq(C, T, nh)));
  Z3_ast con = zand(cs); addCon(con, sp, true); if (yp.nl || xp.nl) markNonlin(con);
  angleOfVar[v] = {divRF(y, r), divRF(x, r)};
  return RF(Poly::var(v));
}
static RF invTrig(const char *nm, const RF &x, const RF &s, const RF &c, double lo, double hi) {
  std::string k = std::string(nm) + "|" + x.key(); auto it = ufMemo.find(k); if (it != ufMemo.end()) return RF(Poly::var(it->second));
  mpq_class l = Qd(lo), h = Qd(hi); Var v = bounded(nm, &l, &h); ufMemo[k] = v; angleOfVar[v] = {s, c}; 
  // monotone link at 0: sign of x
  Cond xp = rfRel(x, 3), xn = rfRel(x, 1);
  if (!xp.isConst) { double mid = std::string(nm) == "acos" ? 1.5707963267948966 : 0; Z3_ast T = V[v].a; bool dec = std::string(nm) == "acos";
    std::vector<Z3_ast> cs{Z3_mk_iff(C, xp.a, dec ? Z3_mk_lt(C, T, num(Qd(mid))) : Z3_mk_gt(C, T, num(Qd(mid)))), Z3_mk_iff(C, xn.a, dec ? Z3_mk_gt(C, T, num(Qd(mid))) : Z3_mk_lt(C, T, num(Qd(mid))))};
    Sup sp = merge(xp.sup, Sup{v}); std::sort(sp.begin(), sp.end()); Z3_ast con = zand(cs); addCon(con, sp, true); if (xp.nl) markNonlin(con); }
  return RF(Poly::var(v));
}

// ---------------------------------------------------------------- memory shadow
struct Page { Sh *e[4096]; uint8_t off[4096]; uint8_t len[4096]; };
static std::unordered_map<uint64_t, Page *> mem;
static inline Page *pg(uint64_t a) { if (mem.empty()) return nullptr; auto it = mem.find(a >> 12); return it == mem.end() ? nullptr : it->second; }
static void clearRange(uint64_t a, uint64_t n) {
  if (mem.empty()) return;
  if (n > (1u << 20)) { for (auto &p : mem) { uint64_t b = p.first << 12; if (b + 4096 <= a || b >= a + n) continue; uint64_t s = std::max(a, b), e = std::min(a + n, b + 4096); memset(&p.second->e[s - b], 0, (e - s) * sizeof(Sh *)); } return; }
  while (n) { uint64_t o = a & 4095, k = std::min(n, 4096 - o); Page *p = pg(a); if (p) memset(&p->e[o], 0, k * sizeof(Sh *)); a += k; n -= k; }
}
static void setByte(uint64_t a, Sh *s, int off, int len) {
  Page *p = pg(a); if (!p) { p = (Page *)calloc(1, sizeof(Page)); mem[a >> 12] = p; }
  p->e[a & 4095] = s; p->off[a & 4095] = off; p->len[a & 4095] = len;
}
static Z3_ast bv(uint64_t v, int w) { return Z3_mk_unsigned_int64(C, w == 64 ? v : v & ((1ull << w) - 1), Z3_mk_bv_sort(C, w)); }
static Z3_ast bvOf(int w, uint64_t c, void *s) {
  if (!s) return w == 1 ? (c & 1 ? Z3_mk_true(C) : Z3_mk_false(C)) : bv(c, w);
  Sh *h = (Sh *)s;
  if (h->k == KBOOL) { if (w == 1) return h->a; return Z3_mk_ite(C, h->a, bv(1, w), bv(0, w)); }
  if (h->k == KBV) { if (w == 1) return Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, h->a), bv(1, 1)); return h->a; }
  if (h->k == KFP) return Z3_mk_fpa_to_ieee_bv(C, h->a);
  unsupportedExit("integer use of a symbolic real");
}
static Sup supOf(void *s) { return s ? ((Sh *)s)->sup : Sup(); }
static Sh *simpBV(int w, Z3_ast a, Sup s) {
  a = Z3_simplify(C, a);
  if (w == 1) return mkSh(KBOOL, 1, a, std::move(s));
  return mkSh(KBV, w, a, std::move(s));
}
static bool isNumeral(Z3_ast a, uint64_t &v) { if (Z3_get_ast_kind(C, a) != Z3_NUMERAL_AST) return false; return Z3_get_numeral_uint64(C, a, (uint64_t *)&v); }

extern "C" {
void __sym_unsupported(void *s, const char *what) { if (s) unsupportedExit(what); }
void __sym_extfp(void *s, const char *name) {
  if (!s) return;
  std::string n = name;
  static const char *ok[] = {"snprintf", "printf", "vsnprintf", "_ZNSo", "_ZNSolsEd", "_ZNSt", "_ZNK", "__vsnprintf", "puts"};
  for (auto o : ok) if (n.rfind(o, 0) == 0) return;
  unsupportedExit("external call with symbolic double: " + n);
}
void *__sym_box(int n) { Sh *h = new Sh{KBOX, n, nullptr, nullptr, {}, std::vector<Sh *>(n, nullptr)}; return h; }
void __sym_boxset(void *b, int i, void *s) { ((Sh *)b)->box[i] = (Sh *)s; }
void *__sym_unbox(void *b, int i) { return b ? ((Sh *)b)->box[i] : nullptr; }

void __sym_clear(void *p, uint64_t n) { clearRange((uint64_t)p, n); }
void __sym_store(void *p, int n, int kind, void *s) {
  if (!s) { clearRange((uint64_t)p, n); return; }
  Sh *h = (Sh *)s;
  if (h->k == KBOOL) { h = mkSh(KBV, n * 8, Z3_mk_ite(C, h->a, bv(1, n * 8), bv(0, n * 8)), h->sup); }
  else if (h->k == KBV && h->w != n * 8) { h = mkSh(KBV, n * 8, Z3_mk_zero_ext(C, n * 8 - h->w, h->a), h->sup); }
  for (int i = 0; i < n; i++) setByte((uint64_t)p + i, h, i, n);
}
void *__sym_load(void *p, int n, int kind) {
  if (mem.empty()) return nullptr;
  uint64_t a = (uint64_t)p; Page *g = pg(a), *g2 = pg(a + n - 1);
  if (!g && !g2) return nullptr;
  auto at = [&](int i, Sh *&e, int &o, int &l) { Page *q = pg(a + i); e = q ? q->e[(a + i) & 4095] : nullptr; if (e) { o = q->off[(a + i) & 4095]; l = q->len[(a + i) & 4095]; } };
  Sh *e0; int o0, l0; at(0, e0, o0, l0);
  bool same = e0 && o0 == 0 && l0 == n, any = e0;
  for (int i = 1; i < n; i++) { Sh *e; int o, l; at(i, e, o, l); if (e) any = true; if (same && (e != e0 || o != i)) same = false; }
  if (!any) return nullptr;
  if (same) {
    if (kind == 1) return mkSh(KBOOL, 1, Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, e0->a), bv(1, 1)), e0->sup);
    if (kind < 1000) { if (e0->k == KBV && e0->w != kind) return mkSh(KBV, kind, Z3_mk_extract(C, kind - 1, 0, e0->a), e0->sup); return e0; }
    if (e0->k == KREAL || e0->k == KFP) return e0;
    if (fpMode && e0->k == KBV) return mkSh(KFP, kind == 1000 ? 32 : 64, Z3_mk_fpa_to_fp_bv(C, e0->a, kind == 1000 ? F32 : F64), e0->sup);
    unsupportedExit("load of integer bytes as double");
  }
  // byte-wise assembly
  Z3_ast r = nullptr; Sup sup;
  for (int i = 0; i < n; i++) {
    Sh *e; int o, l; at(i, e, o, l); Z3_ast b;
    if (e && e->k == KREAL && kind < 1000) { // left-over bytes of a real that has been partly overwritten (padding of a copied struct)
      for (int j = 0; j < l && e; j++) { Sh *f; int fo = 0, fl; Page *q = pg(a + i - o + j); if (!q) { e = nullptr; break; } at(i - o + j, f, fo, fl); if (f != e || fo != j) e = nullptr; }
    }
    if (!e) b = bv(((uint8_t *)p)[i], 8);
    else { if (e->k == KREAL) { if (kind >= 1000 && n == 8) return mkReal(RF(Poly::var(newVar("leftover", 0)))); // stale bytes of a partly overwritten real, read speculatively by the optimiser: any value
      unsupportedExit("partial load of a symbolic real"); } Z3_ast base = e->k == KFP ? Z3_mk_fpa_to_ieee_bv(C, e->a) : e->a; b = Z3_mk_extract(C, o * 8 + 7, o * 8, base); sup = merge(sup, e->sup); }
    r = r ? Z3_mk_concat(C, b, r) : b;
  }
  r = Z3_simplify(C, r); uint64_t nv; if (n <= 8 && isNumeral(r, nv)) { /* concrete after all */ if (kind < 1000) { return nv == 0 ? mkSh(KBV, kind, bv(nv, kind), {}) : mkSh(KBV, kind, bv(nv, kind), {}); } }
  if (kind >= 1000) { if (!fpMode) unsupportedExit("assembled double"); return mkSh(KFP, kind == 1000 ? 32 : 64, Z3_mk_fpa_to_fp_bv(C, r, kind == 1000 ? F32 : F64), sup); }
  if (kind == 1) return mkSh(KBOOL, 1, Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, r), bv(1, 1)), sup);
  if (kind != n * 8) r = Z3_mk_extract(C, kind - 1, 0, r);
  return mkSh(KBV, kind, r, sup);
}
void __sym_copy(void *d, void *s, uint64_t n) {
  if (!s || mem.empty() || !n || d == s) return;
  uint64_t a = (uint64_t)s, b = (uint64_t)d;
  // collect first (memmove semantics)
  bool any = false; for (uint64_t x = a & ~4095ull; x < a + n; x += 4096) if (pg(x)) { any = true; break; }
  if (!any) { clearRange(b, n); return; }
  struct E { uint64_t i; Sh *e; int o, l; }; std::vector<E> v;
  for (uint64_t i = 0; i < n; i++) { Page *p = pg(a + i); if (!p) { i += 4095 - ((a + i) & 4095); continue; } Sh *e = p->e[(a + i) & 4095]; if (e) v.push_back({i, e, p->off[(a + i) & 4095], p->len[(a + i) & 4095]}); }
  clearRange(b, n);
  for (auto &e : v) setByte(b + e.i, e.e, e.o, e.l);
}
void __sym_memset(void *d, void *vs, uint64_t n) { if (!vs) { clearRange((uint64_t)d, n); return; } for (uint64_t i = 0; i < n; i++) __sym_store((char *)d + i, 1, 8, vs); }
void __sym_memguard(void *a, void *b, uint64_t n, const char *name) {
  if (mem.empty()) return;
  auto chk = [&](void *p, uint64_t m) { if (!p) return; if (m == 0) { uint64_t i = 0; for (;; i++) { Page *g = pg((uint64_t)p + i); if (g && g->e[((uint64_t)p + i) & 4095]) unsupportedExit(std::string("symbolic bytes reach ") + name); if (!((char *)p)[i]) break; } return; }
    for (uint64_t i = 0; i < m; i++) { Page *g = pg((uint64_t)p + i); if (g && g->e[((uint64_t)p + i) & 4095]) unsupportedExit(std::string("symbolic bytes reach ") + name); } };
  chk(a, n); chk(b, n);
}

bool __sym_branch(bool c, void *s) {
  if (!s) return c;
  Sh *h = (Sh *)s; Z3_ast a = h->k == KBOOL ? h->a : Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, h->a), bv(1, 1));
  Z3_ast sa = nonlinAst.count(Z3_get_ast_id(C, a)) ? a : a; 
  Z3_lbool v = Z3_get_bool_value(C, a); if (v == Z3_L_TRUE) return true; if (v == Z3_L_FALSE) return false;
  (void)sa; return decide(a, h->sup);
}
static uint64_t concBV(int w, Z3_ast a, const Sup &sup) {
  uint64_t v; a = Z3_simplify(C, a); Z3_inc_ref(C, a); if (isNumeral(a, v)) return v;
  for (int it = 0; it < 5000; it++) {
    Z3_model mod; auto sl = sliceFor(sup); int r = solve(sl, {}, sup, rlimit_branch, &mod, 20); if (r != 1) { if (r == 0) endPath(0); unsupportedExit("concretise: solver gave up"); }
    Z3_ast o; Z3_model_eval(C, mod, a, true, &o); if (!isNumeral(o, v)) unsupportedExit("concretise: no numeral");
    Z3_ast e = Z3_mk_eq(C, a, bv(v, w)); Z3_inc_ref(C, e); if (decide(e, sup)) return v;
  }
  unsupportedExit("concretise: too many values");
}
uint64_t __sym_conc(int w, uint64_t c, void *s) {
  if (!s) return c;
  Sh *h = (Sh *)s; if (h->k == KBOOL) return decide(h->a, h->sup);
  if (h->k == KREAL) unsupportedExit("concretise real");
  return concBV(h->w, h->k == KFP ? Z3_mk_fpa_to_ieee_bv(C, h->a) : h->a, h->sup);
}
uint64_t __sym_divguard(int op, int w, uint64_t a, void *as, uint64_t b, void *bs) {
  if (!bs) { if (as && (op == 20 || op == 23)) return b; return b; }
  // symbolic divisor: fork on zero (native division by zero traps)
  Z3_ast z = Z3_mk_eq(C, bvOf(w, b, bs), bv(0, w)); Z3_inc_ref(C, z);
  if (decide(z, supOf(bs))) { out("{\"t\":\"divzero\"}"); return 0; }
  return 1; // companion value; the shadow carries the real one
}
// LLVM opcodes
enum { OAdd = 13, OFAdd, OSub, OFSub, OMul, OFMul, OUDiv, OSDiv, OFDiv, OURem, OSRem, OFRem, OShl, OLShr, OAShr, OAnd, OOr, OXor };
void *__sym_bin(int op, int w, uint64_t a, void *as, uint64_t b, void *bs) {
  if (!as && !bs) return nullptr;
  // real-sorted opaque integer: sign-bit tricks
  Sh *ha = (Sh *)as, *hb = (Sh *)bs;
  if ((ha && ha->k == KREAL) || (hb && hb->k == KREAL)) {
    Sh *h = ha && ha->k == KREAL ? ha : hb; uint64_t o = h == ha ? b : a; bool oc = h == ha ? !bs : !as;
    if (oc && op == OXor && o == 0x8000000000000000ull) return mkReal(neg(*h->rf));
    if (oc && op == OAnd && o == 0x7fffffffffffffffull) return mkReal(absRF(*h->rf));
    unsupportedExit("bit operation on a symbolic real");
  }
  Sup s = merge(supOf(as), supOf(bs));
  Z3_ast x = bvOf(w, a, as), y = bvOf(w, b, bs), r;
  if (w == 1) {
    Z3_ast v[2] = {x, y};
    switch (op) { case OAnd: case OMul: r = Z3_mk_and(C, 2, v); break; case OOr: r = Z3_mk_or(C, 2, v); break; case OXor: case OAdd: case OSub: r = Z3_mk_xor(C, x, y); break; default: unsupportedExit("i1 op"); }
    bool nl = (ha && nonlinAst.count(Z3_get_ast_id(C, ha->a))) || (hb && nonlinAst.count(Z3_get_ast_id(C, hb->a)));
    r = Z3_simplify(C, r); Sh *q = mkSh(KBOOL, 1, r, s); if (nl) markNonlin(r); return q;
  }
  switch (op) {
  case OAdd: r = Z3_mk_bvadd(C, x, y); break; case OSub: r = Z3_mk_bvsub(C, x, y); break; case OMul: r = Z3_mk_bvmul(C, x, y); break;
  case OUDiv: r = Z3_mk_bvudiv(C, x, y); break; case OSDiv: r = Z3_mk_bvsdiv(C, x, y); break; case OURem: r = Z3_mk_bvurem(C, x, y); break; case OSRem: r = Z3_mk_bvsrem(C, x, y); break;
  case OShl: r = Z3_mk_bvshl(C, x, y); break; case OLShr: r = Z3_mk_bvlshr(C, x, y); break; case OAShr: r = Z3_mk_bvashr(C, x, y); break;
  case OAnd: r = Z3_mk_bvand(C, x, y); break; case OOr: r = Z3_mk_bvor(C, x, y); break; case OXor: r = Z3_mk_bvxor(C, x, y); break;
  default: unsupportedExit("int op");
  }
  return simpBV(w, r, s);
}
static Z3_ast fpOf(double c, void *s, int kind) { if (s) return ((Sh *)s)->a; return kind == 1000 ? Z3_mk_fpa_numeral_double(C, c, F32) : Z3_mk_fpa_numeral_double(C, c, F64); }
static Sh *mkFP(Z3_ast a, Sup s, int kind) { a = Z3_simplify(C, a); return mkSh(KFP, kind == 1000 ? 32 : 64, a, s); }
double __sym_fbin(int op, int kind, double a, void *as, double b, void *bs, double nat) {
  __sym_ret[0] = nullptr;
  if (!as && !bs) return nat;
  if (fpMode) {
    Z3_ast x = fpOf(a, as, kind), y = fpOf(b, bs, kind), rm = Z3_mk_fpa_rne(C), r;
    switch (op) { case OFAdd: r = Z3_mk_fpa_add(C, rm, x, y); break; case OFSub: r = Z3_mk_fpa_sub(C, rm, x, y); break; case OFMul: r = Z3_mk_fpa_mul(C, rm, x, y); break; case OFDiv: r = Z3_mk_fpa_div(C, rm, x, y); break; default: unsupportedExit("frem"); }
    retS(mkFP(r, merge(supOf(as), supOf(bs)), kind)); return nat;
  }
  // non-finite concrete operand
  if ((!as && !std::isfinite(a)) || (!bs && !std::isfinite(b))) {
    double inf = !as ? a : b; if (std::isnan(inf)) return inf;
    RF other = !as ? rfOf(b, bs) : rfOf(a, as);
    switch (op) {
    case OFAdd: return inf; case OFSub: return !as ? inf : -inf;
    case OFMul: if (decideC(rfRel(other, 3))) return inf; if (decideC(rfRel(other, 1))) return -inf; return NAN;
    case OFDiv: if (!as) { if (decideC(rfRel(other, 1))) return -inf; return inf; } return 0.0;
    default: unsupportedExit("frem inf");
    }
  }
  RF x = rfOf(a, as), y = rfOf(b, bs), r;
  switch (op) {
  case OFAdd: r = addsub(x, y, false); break; case OFSub: r = addsub(x, y, true); break; case OFMul: r = mulRF(x, y); break;
  case OFDiv: {
    Cond z = polyRel(y.n, 0);
    if (decideC(z)) { __sync_fetch_and_add(&S->divforks, 1); if (decideC(rfRel(x, 3))) return INFINITY; if (decideC(rfRel(x, 1))) return -INFINITY; return NAN; }
    r = divRF(x, y); break; }
  default: unsupportedExit("frem");
  }
  double c = nat; Sh *h = realOrNull(r, c); retS(h); return c;
}
void *__sym_fneg(void *s) {
  if (!s) return nullptr; Sh *h = (Sh *)s;
  if (h->k == KFP) return mkSh(KFP, h->w, Z3_mk_fpa_neg(C, h->a), h->sup);
  return mkReal(neg(*h->rf));
}
void *__sym_icmp(int pred, int w, uint64_t a, void *as, uint64_t b, void *bs) {
  if (!as && !bs) return nullptr;
  Sh *ha = (Sh *)as, *hb = (Sh *)bs;
  if (w == 64 && ((ha && ha->k == KREAL) || (hb && hb->k == KREAL))) { // IEEE bit patterns compared as integers
    if (hb && !(ha && ha->k == KREAL)) { static const int sw[10] = {32, 33, 36, 37, 34, 35, 40, 41, 38, 39}; return __sym_icmp(sw[pred - 32], w, b, bs, a, as); }
    int64_t o = (int64_t)b; RF x = *ha->rf;
    if (!bs && pred == 40 && o == 0) return boolOf(rfRel(x, 1));
    if (!bs && pred == 38 && o == -1) return boolOf(rfRel(x, 4));
    double d = 0; if (!bs) memcpy(&d, &b, 8); else if (hb->k != KREAL) unsupportedExit("icmp on real bits");
    auto konst = [&](bool v) { return mkSh(KBOOL, 1, v ? Z3_mk_true(C) : Z3_mk_false(C), {}); };
    if (!bs && !std::isfinite(d)) { if (o < 0) unsupportedExit("icmp on real bits (negative)"); if (pred >= 34 && pred <= 37) { Cond ng = rfRel(x, 1); if (decideC(ng)) unsupportedExit("icmp on real bits (unsigned)"); } return konst(pred == 33 || pred == 36 || pred == 37 || pred == 40 || pred == 41); }
    RF y = bs ? *hb->rf : RF(mpq_class(d)); RF df = addsub(x, y, true);
    if (pred == 32) return boolOf(rfRel(df, 0)); if (pred == 33) return boolOf(rfRel(df, 5));
    if (decideC(rfRel(y, 1)) || ((pred <= 37 || true) && decideC(rfRel(x, 1)))) unsupportedExit("icmp order on negative real bits");
    static const int rl[10] = {0, 5, 3, 4, 1, 2, 3, 4, 1, 2}; Cond c = rfRel(df, rl[pred - 32]); return c.isConst ? konst(c.val) : boolOf(c);
  }
  Z3_ast x = bvOf(w, a, as), y = bvOf(w, b, bs), r;
  if (w == 1) { // booleans: compare as bits
    x = Z3_mk_ite(C, x, bv(1, 1), bv(0, 1)); y = Z3_mk_ite(C, y, bv(1, 1), bv(0, 1)); }
  switch (pred) { case 32: r = Z3_mk_eq(C, x, y); break; case 33: r = Z3_mk_not(C, Z3_mk_eq(C, x, y)); break; case 34: r = Z3_mk_bvugt(C, x, y); break; case 35: r = Z3_mk_bvuge(C, x, y); break; case 36: r = Z3_mk_bvult(C, x, y); break; case 37: r = Z3_mk_bvule(C, x, y); break; case 38: r = Z3_mk_bvsgt(C, x, y); break; case 39: r = Z3_mk_bvsge(C, x, y); break; case 40: r = Z3_mk_bvslt(C, x, y); break; default: r = Z3_mk_bvsle(C, x, y); }
  bool nl = (ha && nonlinAst.count(Z3_get_ast_id(C, ha->a))) || (bs && nonlinAst.count(Z3_get_ast_id(C, ((Sh *)bs)->a)));
  r = Z3_simplify(C, r); if (nl) markNonlin(r);
  return mkSh(KBOOL, 1, r, merge(supOf(as), supOf(bs)));
}
bool __sym_fcmp(int pred, int kind, double a, void *as, double b, void *bs, bool nat) {
  __sym_ret[0] = nullptr;
  if (!as && !bs) return nat;
  if (pred == 0) return false; if (pred == 15) return true;
  if (fpMode) {
    Z3_ast x = fpOf(a, as, kind), y = fpOf(b, bs, kind); Z3_ast un = zor({Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)}), r;
    int p = pred & 7; Z3_ast base;
    switch (p) { case 0: base = Z3_mk_false(C); break; case 1: base = Z3_mk_fpa_eq(C, x, y); break; case 2: base = Z3_mk_fpa_gt(C, x, y); break; case 3: base = Z3_mk_fpa_geq(C, x, y); break; case 4: base = Z3_mk_fpa_lt(C, x, y); break; case 5: base = Z3_mk_fpa_leq(C, x, y); break; case 6: base = zor({Z3_mk_fpa_lt(C, x, y), Z3_mk_fpa_gt(C, x, y)}); break; default: base = Z3_mk_not(C, un); }
    r = (pred & 8) ? zor({un, base}) : base; 
    r = Z3_simplify(C, r); retS(mkSh(KBOOL, 1, r, merge(supOf(as), supOf(bs)))); return nat;
  }
  auto three = [&](int s) { switch (pred & 7) { case 1: return s == 0; case 2: return s > 0; case 3: return s >= 0; case 4: return s < 0; case 5: return s <= 0; case 6: return s != 0; case 7: return true; default: return false; } };
  if (!as && !std::isfinite(a)) { if (std::isnan(a)) return pred & 8; return three(a > 0 ? 1 : -1); }
  if (!bs && !std::isfinite(b)) { if (std::isnan(b)) return pred & 8; return three(b > 0 ? -1 : 1); }
  if ((pred & 7) == 7) return true; if ((pred & 7) == 0) return false; // ord / uno on finite reals
  RF d = addsub(rfOf(a, as), rfOf(b, bs), true);
  static const int rel[8] = {0, 0, 3, 4, 1, 2, 5, 0};
  Cond c = rfRel(d, rel[pred & 7]);
  if (c.isConst) return c.val;
  retS(boolOf(c)); return nat;
}
bool __sym_fpclass(int kind, int mask, void *s, bool nat) {
  __sym_ret[0] = nullptr; if (!s) return nat; Sh *h = (Sh *)s;
  if (h->k == KFP) {
    Z3_ast x = h->a; std::vector<Z3_ast> v; Z3_ast ng = Z3_mk_fpa_is_negative(C, x), ps = Z3_mk_fpa_is_positive(C, x);
    if (mask & 3) v.push_back(Z3_mk_fpa_is_nan(C, x));
    if (mask & 4) v.push_back(zand({Z3_mk_fpa_is_infinite(C, x), ng})); if (mask & 512) v.push_back(zand({Z3_mk_fpa_is_infinite(C, x), ps}));
    if (mask & 8) v.push_back(zand({Z3_mk_fpa_is_normal(C, x), ng})); if (mask & 256) v.push_back(zand({Z3_mk_fpa_is_normal(C, x), ps}));
    if (mask & 16) v.push_back(zand({Z3_mk_fpa_is_subnormal(C, x), ng})); if (mask & 128) v.push_back(zand({Z3_mk_fpa_is_subnormal(C, x), ps}));
    if (mask & 32) v.push_back(zand({Z3_mk_fpa_is_zero(C, x), ng})); if (mask & 64) v.push_back(zand({Z3_mk_fpa_is_zero(C, x), ps}));
    retS(mkSh(KBOOL, 1, zor(v), h->sup)); return nat;
  }
  // finite real: classes nan(3) inf(516) never; sign classes by value
  bool neg = mask & (8 | 16), pos = mask & (256 | 128), zero = mask & (32 | 64);
  if (neg && pos && zero) return true; if (!neg && !pos && !zero) return false;
  Cond c; RF r = *h->rf;
  if (neg && pos) c = rfRel(r, 5); else if (neg && zero) c = rfRel(r, 2); else if (pos && zero) c = rfRel(r, 4); else if (neg) c = rfRel(r, 1); else if (pos) c = rfRel(r, 3); else c = rfRel(r, 0);
  if (c.isConst) return c.val; retS(boolOf(c)); return nat;
}
// a boolean about to become integer data: decided by forking when it talks about reals
bool __sym_selcond(bool c, void *s) {
  __sym_ret[0] = s; if (!s) return c;
  Sh *h = (Sh *)s; bool re = false; for (uint32_t v : h->sup) if (V[v].kind == 0) re = true;
  if (!re) return c;
  bool r = __sym_branch(c, s); __sym_ret[0] = nullptr; return r;
}
void *__sym_ite(int w, bool c, void *cs, uint64_t a, void *as, uint64_t b, void *bs) {
  if (!cs) return c ? as : bs;
  Sh *h = (Sh *)cs;
  if ((as && ((Sh *)as)->k == KREAL) || (bs && ((Sh *)bs)->k == KREAL)) unsupportedExit("ite on real bits");
  Sup s = merge(h->sup, merge(supOf(as), supOf(bs)));
  Z3_ast r = Z3_mk_ite(C, h->a, bvOf(w, a, as), bvOf(w, b, bs));
  bool nl = nonlinAst.count(Z3_get_ast_id(C, h->a)) || (as && nonlinAst.count(Z3_get_ast_id(C, ((Sh*)as)->a))) || (bs && nonlinAst.count(Z3_get_ast_id(C, ((Sh*)bs)->a)));
  Sh *q = simpBV(w, r, s); if (nl) markNonlin(q->a); return q;
}
void *__sym_bitcast(int ks, int kd, void *s) {
  if (!s) return nullptr; Sh *h = (Sh *)s;
  if (h->k == KREAL) return s; // opaque
  if (h->k == KFP && kd < 1000) return mkSh(KBV, h->w, Z3_mk_fpa_to_ieee_bv(C, h->a), h->sup);
  if (h->k == KBV && kd >= 1000) { if (!fpMode) unsupportedExit("bits to double"); return mkSh(KFP, kd == 1000 ? 32 : 64, Z3_mk_fpa_to_fp_bv(C, h->a, kd == 1000 ? F32 : F64), h->sup); }
  return s;
}
uint64_t __sym_fptoi(int sg, int ks, int kd, double a, void *s) {
  __sym_ret[0] = nullptr;
  if (!s) return sg ? (uint64_t)(int64_t)(std::fabs(a) < 9.2e18 ? a : 0) : (uint64_t)(a >= 0 && a < 1.8e19 ? a : (a > -9.2e18 && a < 0) ? (double)0 : 0);
  Sh *h = (Sh *)s;
  if (h->k == KFP) { Z3_ast r = sg ? Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), h->a, kd) : Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), h->a, kd); retS(mkSh(KBV, kd, r, h->sup)); return 0; }
  RF r = *h->rf;
  bool ng = decideC(rfRel(r, 1)); mpz_class k = ng ? mpz_class(-floorFork(neg(r))) : floorFork(r);
  return (uint64_t)(int64_t)k.get_si();
}
double __sym_itofp(int sg, int ks, int kd, uint64_t c, void *s, double nat) {
  __sym_ret[0] = nullptr; if (!s) return nat;
  Sh *h = (Sh *)s;
  if (fpMode && h->k == KBV) { Z3_ast r = sg ? Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), h->a, kd == 1000 ? F32 : F64) : Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), h->a, kd == 1000 ? F32 : F64); retS(mkFP(r, h->sup, kd)); return nat; }
  uint64_t v = __sym_conc(ks, c, s);
  if (sg) { int64_t x = ks == 64 ? (int64_t)v : (int64_t)(v << (64 - ks)) >> (64 - ks); return (double)x; }
  return (double)v;
}
void *__sym_cast(int op, int ks, int kd, void *s) {
  if (!s) return nullptr; Sh *h = (Sh *)s;
  // Trunc 38 ZExt 39 SExt 40 FPTrunc 45 FPExt 46
  if (h->k == KREAL) { if (kd >= 1000) return s; unsupportedExit("cast of real bits"); }
  if (h->k == KFP) { if (kd >= 1000) { if (kd == ks) return s; return mkFP(Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), h->a, kd == 1000 ? F32 : F64), h->sup, kd); } h = mkSh(KBV, h->w, Z3_mk_fpa_to_ieee_bv(C, h->a), h->sup); }
  bool nl = nonlinAst.count(Z3_get_ast_id(C, h->a));
  Sh *q;
  if (op == 38) { if (kd == 1) q = h->k == KBOOL ? h : mkSh(KBOOL, 1, Z3_simplify(C, Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, h->a), bv(1, 1))), h->sup); else q = simpBV(kd, Z3_mk_extract(C, kd - 1, 0, h->a), h->sup); }
  else if (h->k == KBOOL) q = mkSh(KBV, kd, Z3_mk_ite(C, h->a, bv(op == 39 ? 1 : ~0ull, kd), bv(0, kd)), h->sup);
  else q = simpBV(kd, op == 39 ? Z3_mk_zero_ext(C, kd - ks, h->a) : Z3_mk_sign_ext(C, kd - ks, h->a), h->sup);
  if (nl) markNonlin(q->a); return q;
}
void *__sym_iintr(const char *nm, int w, uint64_t a, void *as, uint64_t b, void *bs, uint64_t c, void *cs) {
  if (!as && !bs && !cs) return nullptr; std::string n = nm;
  Sup s = merge(supOf(as), merge(supOf(bs), supOf(cs))); Z3_ast x = bvOf(w, a, as), r;
  if (n == "abs") return simpBV(w, Z3_mk_ite(C, Z3_mk_bvslt(C, x, bv(0, w)), Z3_mk_bvneg(C, x), x), s);
  if (n == "bswap") { Z3_ast q = nullptr; for (int i = 0; i < w; i += 8) { Z3_ast e = Z3_mk_extract(C, i + 7, i, x); q = q ? Z3_mk_concat(C, q, e) : e; } return simpBV(w, q, s); }
  Z3_ast y = bvOf(w, b, bs);
  if (n == "smax") r = Z3_mk_ite(C, Z3_mk_bvsgt(C, x, y), x, y); else if (n == "smin") r = Z3_mk_ite(C, Z3_mk_bvslt(C, x, y), x, y);
  else if (n == "umax") r = Z3_mk_ite(C, Z3_mk_bvugt(C, x, y), x, y); else if (n == "umin") r = Z3_mk_ite(C, Z3_mk_bvult(C, x, y), x, y);
  else if (n == "usubsat") r = Z3_mk_ite(C, Z3_mk_bvult(C, x, y), bv(0, w), Z3_mk_bvsub(C, x, y));
  else if (n == "uaddsat") { Z3_ast t = Z3_mk_bvadd(C, x, y); r = Z3_mk_ite(C, Z3_mk_bvult(C, t, x), bv(~0ull, w), t); }
  else if ((n == "fshl" || n == "fshr") && !cs) { int k = c % w; if (!k) r = n == "fshl" ? x : y; else { int sh = n == "fshl" ? k : w - k; r = Z3_mk_bvor(C, Z3_mk_bvshl(C, x, bv(sh, w)), Z3_mk_bvlshr(C, y, bv(w - sh, w))); } }
  else unsupportedExit("intrinsic " + n);
  return simpBV(w, r, s);
}
void *__sym_ovf(int code, int w, uint64_t a, void *as, uint64_t b, void *bs) {
  __sym_ret[0] = nullptr; if (!as && !bs) return nullptr;
  Sup s = merge(supOf(as), supOf(bs)); Z3_ast x = bvOf(w, a, as), y = bvOf(w, b, bs), r, o;
  switch (code) {
  case 0: r = Z3_mk_bvadd(C, x, y); o = Z3_mk_not(C, zand({Z3_mk_bvadd_no_overflow(C, x, y, true), Z3_mk_bvadd_no_underflow(C, x, y)})); break;
  case 1: r = Z3_mk_bvadd(C, x, y); o = Z3_mk_not(C, Z3_mk_bvadd_no_overflow(C, x, y, false)); break;
  case 2: r = Z3_mk_bvsub(C, x, y); o = Z3_mk_not(C, zand({Z3_mk_bvsub_no_overflow(C, x, y), Z3_mk_bvsub_no_underflow(C, x, y, true)})); break;
  case 3: r = Z3_mk_bvsub(C, x, y); o = Z3_mk_bvult(C, x, y); break;
  case 4: r = Z3_mk_bvmul(C, x, y); o = Z3_mk_not(C, zand({Z3_mk_bvmul_no_overflow(C, x, y, true), Z3_mk_bvmul_no_underflow(C, x, y)})); break;
  default: r = Z3_mk_bvmul(C, x, y); o = Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, x, y, false)); break;
  }
  Sh *q = simpBV(w, r, s); retS(mkSh(KBOOL, 1, Z3_simplify(C, o), s)); return q;
}
double __sym_math(const char *fn, int kind, double a, void *as, double b, void *bs, double c, void *cs, double nat) {
  __sym_ret[0] = nullptr; if (!as && !bs && !cs) return nat;
  std::string f = fn;
  if (fpMode) {
    Sup s = merge(supOf(as), merge(supOf(bs), supOf(cs))); Z3_ast x = fpOf(a, as, kind), r = nullptr;
    if (f == "fabs") r = Z3_mk_fpa_abs(C, x); else if (f == "sqrt") r = Z3_mk_fpa_sqrt(C, Z3_mk_fpa_rne(C), x);
    else if (f == "floor") r = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtn(C), x); else if (f == "ceil") r = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtp(C), x);
    else if (f == "trunc") r = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtz(C), x); else if (f == "rint") r = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rne(C), x); else if (f == "round") r = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rna(C), x);
    else if (f == "fmin" || f == "fmax") { Z3_ast y = fpOf(b, bs, kind); Z3_ast cmpv = f == "fmin" ? Z3_mk_fpa_lt(C, x, y) : Z3_mk_fpa_gt(C, x, y); r = Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, x), y, Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, y), x, Z3_mk_ite(C, cmpv, x, y))); }
    else if (f == "copysign") { Z3_ast y = fpOf(b, bs, kind); Z3_ast ab = Z3_mk_fpa_abs(C, x); Z3_ast sb = Z3_mk_extract(C, kind == 1000 ? 31 : 63, kind == 1000 ? 31 : 63, Z3_mk_fpa_to_ieee_bv(C, y)); r = Z3_mk_ite(C, Z3_mk_eq(C, sb, bv(1, 1)), Z3_mk_fpa_neg(C, ab), ab); }
    else if (f == "fma") r = Z3_mk_fpa_fma(C, Z3_mk_fpa_rne(C), x, fpOf(b, bs, kind), fpOf(c, cs, kind));
    else unsupportedExit("fp-mode math " + f);
    retS(mkFP(r, s, kind)); return nat;
  }
  auto R = [&](const RF &r) { double cc = nat; Sh *h = realOrNull(r, cc); retS(h); return cc; };
  bool nonfin = (!as && !std::isfinite(a)) || (!bs && !std::isfinite(b)) || (!cs && !std::isfinite(c));
  if (nonfin) {
    if (f == "fmin" || f == "fmax") { double n = !as ? a : b; void *o = !as ? bs : as; if (std::isnan(n)) { retS((Sh *)o); return nat; } bool pickInf = (f == "fmax") == (n > 0); if (pickInf) return n; retS((Sh *)o); return nat; }
    return NAN; }
  RF x = rfOf(a, as);
  if (f == "fabs") return R(absRF(x));
  if (f == "sqrt") { Cond n = rfRel(x, 1); if (decideC(n)) return NAN; return R(sqrtRF(x)); }
  if (f == "floor") return (double)floorFork(x).get_d();
  if (f == "ceil") return -(double)floorFork(neg(x)).get_d();
  if (f == "trunc") return decideC(rfRel(x, 1)) ? -(double)floorFork(neg(x)).get_d() : (double)floorFork(x).get_d();
  if (f == "round") { RF h(mpq_class(1, 2)); return decideC(rfRel(x, 1)) ? -(double)floorFork(addsub(neg(x), h, false)).get_d() : (double)floorFork(addsub(x, h, false)).get_d(); }
  if (f == "rint") { double k = floorFork(x).get_d(); RF d = addsub(x, RF(mpq_class(k) + mpq_class(1, 2)), true); if (decideC(rfRel(d, 3))) return k + 1; if (decideC(rfRel(d, 1))) return k; return std::fmod(k, 2) == 0 ? k : k + 1; }
  if (f == "fmin" || f == "fmax") { RF y = rfOf(b, bs); bool lt = decideC(rfRel(addsub(x, y, true), 1)); bool first = (f == "fmin") == lt; return R(first ? x : y); }
  if (f == "fdim") { RF d = addsub(x, rfOf(b, bs), true); return decideC(rfRel(d, 3)) ? R(d) : 0.0; }
  if (f == "copysign") { RF ax = absRF(x); bool ng = bs ? decideC(rfRel(rfOf(b, bs), 1)) : std::signbit(b); return R(ng ? neg(ax) : ax); }
  if (f == "fma") return R(addsub(mulRF(x, rfOf(b, bs)), rfOf(c, cs), false));
  if (f == "hypot") { RF y = rfOf(b, bs); return R(sqrtRF(addsub(mulRF(x, x), mulRF(y, y), false))); }
  if (f == "sin") return R(angleOf(x).s);
  if (f == "cos") return R(angleOf(x).c);
  if (f == "tan") { Angle t = angleOf(x); if (decideC(polyRel(t.c.n, 0))) return INFINITY; return R(divRF(t.s, t.c)); }
  if (x.isConst() && ((f == "atan" || f == "asin" || f == "acos" || f == "log" || f == "cbrt") && !((f == "asin" || f == "acos") && abs(x.n.constant()) > 1) && !(f == "log" && x.n.constant() <= 0))) { double v = x.n.constant().get_d(); return R(RF(mpq_class(f == "atan" ? std::atan(v) : f == "asin" ? std::asin(v) : f == "acos" ? std::acos(v) : f == "cbrt" ? std::cbrt(v) : std::log(v)))); }
  if (f == "atan2") { RF y = x; x = rfOf(b, bs); if (decideC(polyRel(x.n, 0)) && decideC(polyRel(y.n, 0))) return 0.0; return R(atan2RF(y, x)); }
  if (f == "atan") { RF one(mpq_class(1)); RF h = sqrtRF(addsub(mulRF(x, x), one, false)); return R(invTrig("atan", x, divRF(x, h), inv(h), -1.5707963267948966, 1.5707963267948966)); }
  if (f == "asin" || f == "acos") { RF one(mpq_class(1)); if (decideC(rfRel(addsub(x, one, true), 3))) return NAN; if (decideC(rfRel(addsub(x, one, false), 1))) return NAN;
    RF o = sqrtRF(addsub(one, mulRF(x, x), true)); return f == "asin" ? R(invTrig("asin", x, x, o, -1.5707963267948966, 1.5707963267948966)) : R(invTrig("acos", x, o, x, 0, 3.14159265358979323846)); }
  if (f == "exp") return R(expRF(x));
  if (f == "sinh" || f == "cosh" || f == "tanh") { RF e = expRF(x), i = inv(e); RF s = addsub(e, i, true), p = addsub(e, i, false); if (f == "tanh") return R(divRF(s, p)); return R(mulRF(f == "sinh" ? s : p, RF(mpq_class(1, 2)))); }
  if (f == "log") { if (decideC(rfRel(x, 2))) { if (decideC(polyRel(x.n, 0))) return -INFINITY; return NAN; }
    RF le; if (logOfExp(x, le)) return R(le);
    if (x.d.empty() && x.n.t.size() == 1 && x.n.t.begin()->first.f.size() == 1 && x.n.t.begin()->first.f[0].second == 1 && x.n.t.begin()->second > 0 && x.n.t.begin()->second != 1) { // log(c v) = log c + log v
      mpq_class c = x.n.t.begin()->second; RF v(Poly::var(x.n.t.begin()->first.f[0].first)); RF l = ufApp("log", {v}); logOfVar[l.n.t.begin()->first.f[0].first] = v; return R(addsub(RF(mpq_class(std::log(c.get_d()))), l, false)); }
    RF l = ufApp("log", {x}); logOfVar[l.n.t.begin()->first.f[0].first] = x;
    Var lv = l.n.t.begin()->first.f[0].first; 
    { // sign: log x > 0 <=> x > 1 ; log x <= x - 1
      Cond g = rfRel(addsub(x, RF(mpq_class(1)), true), 3), z = rfRel(addsub(x, RF(mpq_class(1)), true), 0); static std::set<Var> seen; if (seen.insert(lv).second && !g.isConst) { Z3_ast con = zand({Z3_mk_iff(C, g.a, Z3_mk_gt(C, V[lv].a, num(0))), Z3_mk_iff(C, z.a, Z3_mk_eq(C, V[lv].a, num(0)))}); Sup sp = merge(g.sup, Sup{lv}); std::sort(sp.begin(), sp.end()); addCon(con, sp, true); if (g.nl) markNonlin(con); } }
    return R(l); }
  if (f == "cbrt" && x.d.empty() && x.n.t.size() == 1 && !x.isConst()) { // cube root of a perfect-cube monomial
    auto &t = *x.n.t.begin(); bool ok = true; for (auto &e : t.first.f) ok &= e.second % 3 == 0;
    mpq_class q = t.second, r; mpz_class rn, rd; bool ex = mpz_root(rn.get_mpz_t(), q.get_num_mpz_t(), 3) && mpz_root(rd.get_mpz_t(), q.get_den_mpz_t(), 3); r = ex ? mpq_class(rn, rd) : mpq_class(std::cbrt(q.get_d()));
    if (ok) { Poly p(r); for (auto &e : t.first.f) p = mul(p, ppow(Poly::var(e.first), e.second / 3)); return R(RF(p)); }
  }
  if (f == "cbrt") { std::string k = "cbrt|" + x.key(); auto it = ufMemo.find(k); Var v; if (it != ufMemo.end()) v = it->second; else { v = newVar("cbrt", 0); ufMemo[k] = v; if (x.d.empty()) rels()[v] = {3, x.n}; Z3_ast q[3] = {V[v].a, V[v].a, V[v].a}; Poly dp = denPoly(x.d); Z3_ast l = Z3_mk_mul(C, 3, q); Z3_ast ld[2] = {l, polyAst(dp)}; Z3_ast con = Z3_mk_eq(C, Z3_mk_mul(C, 2, ld), polyAst(x.n)); Sup sp = merge(rfSup(x), Sup{v}); std::sort(sp.begin(), sp.end()); addCon(con, sp, true); markNonlin(con); } return R(RF(Poly::var(v))); }
  if (f == "powi" || (f == "pow" && !bs && b == std::floor(b) && std::fabs(b) <= 64)) {
    long n = (long)b; if (n == 0) return 1.0; bool ng = n < 0; if (ng) n = -n; RF r(mpq_class(1)); for (long i = 0; i < n; i++) r = mulRF(r, x);
    if (ng) { if (decideC(polyRel(r.n, 0))) return INFINITY; r = inv(r); } return R(r); }
  if (f == "pow" && !bs && b * 2 == std::floor(b * 2) && std::fabs(b) <= 32) {
    if (decideC(rfRel(x, 1))) return NAN; long n = (long)(b * 2); RF q = sqrtRF(x); bool ng = n < 0; if (ng) n = -n; RF r(mpq_class(1)); for (long i = 0; i < n; i++) r = mulRF(r, q);
    if (ng) { if (decideC(polyRel(x.n, 0))) return INFINITY; r = inv(r); } return R(r); }
  if (f == "pow" && !as && a > 0) { RF y = rfOf(b, bs); return R(expRF(mulRF(y, RF(mpq_class(std::log(a)))))); }
  if (f == "pow") { RF y = rfOf(b, bs); if (decideC(rfRel(x, 1))) unsupportedExit("pow of negative base"); if (decideC(polyRel(x.n, 0))) return decideC(rfRel(y, 3)) ? 0.0 : decideC(polyRel(y.n, 0)) ? 1.0 : INFINITY; mpq_class z = 0; RF p = ufApp("pow", {x, y}, &z); Var pv = p.n.t.begin()->first.f[0].first; addCon(Z3_mk_gt(C, V[pv].a, num(0)), {pv}, true); return R(p); }
  if (f == "ldexp") { mpq_class k = 1; long n = (long)b; for (long i = 0; i < std::labs(n); i++) { if (n > 0) k *= 2; else k /= 2; } return R(mulRF(x, RF(k))); }
  if (f == "fmod" || f == "remainder") { RF y = rfOf(b, bs); if (decideC(polyRel(y.n, 0))) return NAN; RF q = divRF(x, y); mpz_class k;
    if (f == "fmod") k = decideC(rfRel(q, 1)) ? mpz_class(-floorFork(neg(q))) : floorFork(q); else k = floorFork(addsub(q, RF(mpq_class(1, 2)), false));
    return R(addsub(x, mulRF(y, RF(mpq_class(k))), true)); }
  if (f == "erf" || f == "erfc" || f == "tgamma" || f == "lgamma" || f == "log10" || f == "log2" || f == "log1p" || f == "expm1" || f == "exp2" || f == "asinh" || f == "acosh" || f == "atanh") {
    if ((f == "log10" || f == "log2") && decideC(rfRel(x, 2))) return NAN;
    if (f == "log10" || f == "log2") { double d; __sym_ret[0] = nullptr; d = __sym_math("log", kind, a, as, 0, nullptr, 0, nullptr, nat); Sh *h = (Sh *)__sym_ret[0]; RF l = h ? *h->rf : RF(toQ(d)); return R(mulRF(l, RF(mpq_class(f == "log10" ? 0.43429448190325182765 : 1.4426950408889634074)))); }
    mpq_class lo = -1, hi = 1, z = 0, two = 2; if (f == "erf") { // odd
      bool ng = decideC(rfRel(x, 1)); RF e = ufApp("erf", {ng ? neg(x) : x}, &z, &hi); return R(ng ? neg(e) : e); }
    if (f == "erfc") { bool ng = decideC(rfRel(x, 1)); RF e = ufApp("erf", {ng ? neg(x) : x}, &z, &hi); RF s = ng ? neg(e) : e; return R(addsub(RF(mpq_class(1)), s, true)); }
    return R(ufApp(f, {x})); }
  unsupportedExit("math " + f);
}

// ---------------------------------------------------------------- harness API
static Sh *inputReal(const char *name, double lo, double hi) {
  if (fpMode) { Var v = newVar(name, 2, 64); V[v].input = true; inputs.push_back(v);
    if (!(std::isinf(lo) && std::isinf(hi))) { addCon(zand({Z3_mk_fpa_geq(C, V[v].a, Z3_mk_fpa_numeral_double(C, lo, F64)), Z3_mk_fpa_leq(C, V[v].a, Z3_mk_fpa_numeral_double(C, hi, F64))}), {v}, true); }
    return mkSh(KFP, 64, V[v].a, {v}); }
  mpq_class l(std::isinf(lo) ? 0 : lo), h(std::isinf(hi) ? 0 : hi); Var v = bounded(name, std::isinf(lo) ? nullptr : &l, std::isinf(hi) ? nullptr : &h); V[v].input = true; inputs.push_back(v);
  return mkReal(RF(Poly::var(v)));
}
double symrt_real(const char *name, double lo, double hi) { retS(inputReal(name, lo, hi)); return 1.0; }
int symrt_int(const char *name, int lo, int hi) {
  Var v = newVar(name, 1, 32); V[v].input = true; inputs.push_back(v);
  addCon(zand({Z3_mk_bvsge(C, V[v].a, bv((uint32_t)lo, 32)), Z3_mk_bvsle(C, V[v].a, bv((uint32_t)hi, 32))}), {v}, true);
  retS(mkSh(KBV, 32, V[v].a, {v})); return lo;
}
int symrt_pick(const char *name, int lo, int hi) { // concretised choice: one path per value
  Var v = newVar(name, 1, 32); V[v].input = true; inputs.push_back(v);
  addCon(zand({Z3_mk_bvsge(C, V[v].a, bv((uint32_t)lo, 32)), Z3_mk_bvsle(C, V[v].a, bv((uint32_t)hi, 32))}), {v}, true);
  for (int i = lo; i < hi; i++) { Z3_ast e = Z3_mk_eq(C, V[v].a, bv((uint32_t)i, 32)); Z3_inc_ref(C, e); if (decide(e, {v})) { retS(nullptr); return i; } }
  retS(nullptr); return hi;
}
long symrt_long(const char *name, long lo, long hi) {
  Var v = newVar(name, 1, 64); V[v].input = true; inputs.push_back(v);
  addCon(zand({Z3_mk_bvsge(C, V[v].a, bv(lo, 64)), Z3_mk_bvsle(C, V[v].a, bv(hi, 64))}), {v}, true);
  retS(mkSh(KBV, 64, V[v].a, {v})); return lo;
}
unsigned char symrt_byte(const char *name) { Var v = newVar(name, 1, 8); V[v].input = true; inputs.push_back(v); retS(mkSh(KBV, 8, V[v].a, {v})); return 'A'; }
bool symrt_bool(const char *name) { Var v = newVar(name, 3, 1); V[v].input = true; inputs.push_back(v); retS(mkSh(KBOOL, 1, V[v].a, {v})); return false; }
// a user callback: arbitrary but functional
double symrt_fn1(const char *name, double x, double lo, double hi) { void *xs = __sym_args[1]; mpq_class l(lo), h(hi); RF r = ufApp(name, {rfOf(x, xs)}, &l, &h, true); retS(mkReal(r)); return 1.0; }
double symrt_fn2(const char *name, double x, double y, double lo, double hi) { void *xs = __sym_args[1], *ys = __sym_args[2]; mpq_class l(lo), h(hi); RF r = ufApp(name, {rfOf(x, xs), rfOf(y, ys)}, &l, &h, true); retS(mkReal(r)); return 1.0; }
double symrt_fn3(const char *name, double x, double y, double z, double lo, double hi) { void *xs = __sym_args[1], *ys = __sym_args[2], *zs = __sym_args[3]; mpq_class l(lo), h(hi); RF r = ufApp(name, {rfOf(x, xs), rfOf(y, ys), rfOf(z, zs)}, &l, &h, true); retS(mkReal(r)); return 1.0; }
void symrt_angle(double x, int den) { // declare that x/den is the base angle for trigonometric expansion
  void *xs = __sym_args[0]; if (!xs) return; RF r = rfOf(x, xs); for (auto &t : r.n.t) { RF u; u.n.t[t.first] = 1; u.d = r.d; std::string k = u.key(); if (!units.count(k)) units[k] = {mpq_class(1, den), newAngle("b" + std::to_string(units.size()))}; } }
void symrt_assume(bool c) {
  Sh *h = (Sh *)__sym_args[0];
  if (!h) { if (!c) { __sync_fetch_and_add(&S->infeasible, 1); endPath(0); } return; }
  Z3_ast a = h->k == KBOOL ? h->a : Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, h->a), bv(1, 1)); Z3_inc_ref(C, a);
  if (nonlinAst.count(Z3_get_ast_id(C, h->a))) markNonlin(a);
  int f = feasible(a, h->sup); if (f == 0) { __sync_fetch_and_add(&S->infeasible, 1); endPath(0); }
  addCon(a, h->sup); learn(a);
}
static std::map<std::string, int> violated;
static void onCrash(int);
static void emitViolation(const std::string &label, const std::vector<Z3_ast> &ex0, const Sup &sup, const std::vector<Z3_ast> &marg, const char *how) {
  __sync_fetch_and_add(&S->violations, 1);
  std::string s = "{\"t\":\"violation\",\"case\":\"" + jesc(caseName) + "\",\"label\":\"" + jesc(label) + "\",\"models\":[";
  bool first = true; int got = 0;
  for (int att = 0; att < 5; att++) {
    std::vector<Z3_ast> ex = ex0; Sup sp = sup;
    if (att == 0) { if (marg.empty()) continue; ex = marg; }
    if (att == 1 || att == 2) { // pseudo-random "nice" pins on a subset of inputs
      if (!marg.empty()) ex = marg;
      unsigned h = 12345u + att * 7919u; int n = 0;
      for (int v : inputs) if (V[v].kind == 0) { h = h * 1103515245u + 12345u; int pick = (h >> 16) % 100; if (pick < (att == 1 ? 60 : 35)) { double lo = V[v].hasLo ? V[v].lo.get_d() : -4, hi = V[v].hasHi ? V[v].hi.get_d() : 4; h = h * 1103515245u + 12345u; double t = ((h >> 16) % 13 - 6) / 2.0 ; double x = t; if (x < lo || x > hi) x = lo + (hi - lo) * (((h >> 20) % 15 + 1) / 16.0); Z3_ast e = Z3_mk_eq(C, V[v].a, num(mpq_class(x))); Z3_inc_ref(C, e); ex.push_back(e); n++; sp = merge(sp, Sup{(uint32_t)v}); } }
      if (!n) continue;
    }
    if (att == 3 && got) break;
    if (att == 4 && got) break;
    Mod m; int r = fullModel(ex, sp, m, rlimit_check, att == 3 ? 30 : 8);
    if (r == 1) { if (!first) s += ","; first = false; s += "{" + modelJson(m) + "}"; got++; }
    else if (att == 4) break;
  }
  s += "],\"how\":\""; s += how; s += "\"}"; out(s);
}
static std::vector<Z3_ast> pinAll(const Sup &sup, unsigned seed, int keep, Sup &outSup) { // pin all real inputs in closure except ~keep of them
  std::vector<Z3_ast> r; std::vector<int> vs; for (int v : inputs) if (V[v].kind == 0) vs.push_back(v);
  unsigned h = seed * 2654435761u + 17;
  for (size_t i = 0; i < vs.size(); i++) { h = h * 1103515245u + 12345u; size_t j = i + (h >> 8) % (vs.size() - i); std::swap(vs[i], vs[j]); }
  for (size_t i = 0; i + keep < vs.size(); i++) { int v = vs[i]; h = h * 1103515245u + 12345u; double lo = V[v].hasLo ? V[v].lo.get_d() : -4, hi = V[v].hasHi ? V[v].hi.get_d() : 4; double x = ((h >> 16) % 17 - 8) / 4.0; if (x < lo || x > hi) x = lo + (hi - lo) * (((h >> 20) % 15 + 1) / 16.0);
    Z3_ast e = Z3_mk_eq(C, V[v].a, num(mpq_class(x))); Z3_inc_ref(C, e); r.push_back(e); outSup = merge(outSup, Sup{(uint32_t)v}); }
  return r;
}
// decide PC /\ bad ; marg: stronger version of bad for nicer models
static void decideCheck(const std::string &label, Z3_ast bad, const Sup &sup, Z3_ast marg) {
  Z3_inc_ref(C, bad); if (marg) Z3_inc_ref(C, marg);
  __sync_fetch_and_add(&S->checks, 1);
  auto sl = sliceFor(sup);
  int r = solve(sl, {bad}, sup, rlimit_check, nullptr, 60);
  if (r == 0) { __sync_fetch_and_add(&S->chkSolver, 1); return; }
  if (r == 1) { // is the whole PC consistent with it?
    std::vector<Z3_ast> mg; if (marg) mg.push_back(marg);
    emitViolation(label, {bad}, sup, mg, "sat"); return; }
  // undecided: shrink the input space (pin all but a few inputs) and decide there
  int decided = 0, n = 0; 
  for (int keep : {3, 2, 1}) for (unsigned seed = 1; seed <= 2; seed++) {
    Sup sp = sup; auto pins = pinAll(sup, seed + 10 * keep, keep, sp); if (pins.empty()) continue; n++;
    pins.push_back(bad); auto s2 = sliceFor(sp); Z3_model mod; int q = solve(s2, pins, sp, rlimit_check, &mod, 8);
    if (q == 1) { emitViolation(label, pins, sp, {}, "sat-pinned"); return; }
    if (q == 0) decided++;
  }
  __sync_fetch_and_add(&S->reduced, 1);
  out("{\"t\":\"reduced\",\"case\":\"" + jesc(caseName) + "\",\"label\":\"" + jesc(label) + "\",\"pinned_unsat\":" + std::to_string(decided) + ",\"tried\":" + std::to_string(n) + "}");
}
void symrt_check(bool c, const char *label) {
  Sh *h = (Sh *)__sym_args[0];
  if (!h) { if (c) { __sync_fetch_and_add(&S->checks, 1); __sync_fetch_and_add(&S->chkNorm, 1); return; } __sync_fetch_and_add(&S->checks, 1);
    // concretely false on this path: the path itself must be feasible
    Mod m; int r = fullModel({}, {}, m, rlimit_check, 30); if (r == 0) { __sync_fetch_and_add(&S->infeasible, 1); return; }
    emitViolation(label, {}, {}, {}, "path"); return; }
  Z3_ast a = h->k == KBOOL ? h->a : Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, h->a), bv(1, 1)); Z3_ast na = Z3_mk_not(C, a); Z3_inc_ref(C, na);
  if (nonlinAst.count(Z3_get_ast_id(C, h->a))) markNonlin(na);
  decideCheck(label, na, h->sup, nullptr);
}
// |a-b| <= tol*(1+scale) ; decided exactly first
void symrt_check_eq(double a, double b, double tol, const char *label) {
  void *as = __sym_args[0], *bs = __sym_args[1];
  if (!as && !bs) {
    bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); __sym_args[0] = nullptr; symrt_check(ok, label); return; }
  if (fpMode) { Z3_ast x = fpOf(a, as, 1001), y = fpOf(b, bs, 1001); Z3_ast bad = Z3_mk_not(C, zor({Z3_mk_fpa_eq(C, x, y), zand({Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)})})); decideCheck(label, bad, merge(supOf(as), supOf(bs)), nullptr); return; }
  if ((!as && !std::isfinite(a)) || (!bs && !std::isfinite(b))) { __sym_args[0] = nullptr; symrt_check(false, label); return; }
  RF d = addsub(rfOf(a, as), rfOf(b, bs), true);
  if (d.n.zero()) { __sync_fetch_and_add(&S->checks, 1); __sync_fetch_and_add(&S->chkNorm, 1); return; }
  mpq_class t(tol);
  // relaxation: bounded monomials, tiny residual coefficients (rounded constants)
  if (d.d.empty()) {
    bool bounded_ = true; std::vector<Z3_ast> ex; std::vector<Z3_ast> terms; Sup sp; static int mc = 0; mpq_class tot = 0;
    for (auto &m : d.n.t) { mpq_class B = 1; for (auto &f : m.first.f) { if (!V[f.first].hasLo || !V[f.first].hasHi) { bounded_ = false; break; } mpq_class mx = std::max(abs(V[f.first].lo), abs(V[f.first].hi)); for (uint32_t i = 0; i < f.second; i++) B *= mx; } if (!bounded_) break; tot += abs(m.second) * B;
      Z3_ast y = Z3_mk_const(C, Z3_mk_string_symbol(C, ("mono" + std::to_string(mc++)).c_str()), REALS); ex.push_back(Z3_mk_le(C, y, num(B))); ex.push_back(Z3_mk_ge(C, y, num(-B))); Z3_ast p[2] = {num(m.second), y}; terms.push_back(Z3_mk_mul(C, 2, p)); }
    if (bounded_ && tot <= t) {
      Z3_ast sum = terms.size() == 1 ? terms[0] : Z3_mk_add(C, terms.size(), terms.data()); ex.push_back(zor({Z3_mk_gt(C, sum, num(t)), Z3_mk_lt(C, sum, num(-t))}));
      Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LRA")); Z3_solver_inc_ref(C, s); for (auto e : ex) Z3_solver_assert(C, s, e);
      double t0 = now(); int r = Z3_solver_check(C, s); __sync_fetch_and_add(&S->queries, 1); __sync_fetch_and_add(&S->solver_us, (long)((now() - t0) * 1e6)); Z3_solver_dec_ref(C, s);
      if (r == Z3_L_FALSE) { __sync_fetch_and_add(&S->checks, 1); __sync_fetch_and_add(&S->chkSolver, 1); return; }
    }
  }
  auto mkBad = [&](mpq_class tt) { // |n| > tt*|den|
    Poly den = denPoly(d.d); Z3_ast n = polyAst(d.n); bool nl = d.n.degree() > 1; Z3_ast bad;
    if (den.isConst()) { mpq_class k = tt * abs(den.constant()); bad = zor({Z3_mk_gt(C, n, num(k)), Z3_mk_lt(C, n, num(-k))}); }
    else { nl = true; Poly td = scale(den, tt); Z3_ast D = polyAst(td); Z3_ast z = num(0); Z3_ast dp = Z3_mk_gt(C, D, z); Z3_ast ab = Z3_mk_ite(C, dp, D, Z3_mk_unary_minus(C, D)); (void)ab;
      Z3_ast a2 = polyAst(d.n - td), b2 = polyAst(d.n + td); // n>|D|  or n<-|D|
      bad = zor({zand({dp, zor({Z3_mk_gt(C, a2, z), Z3_mk_lt(C, b2, z)})}), zand({Z3_mk_lt(C, D, z), zor({Z3_mk_gt(C, b2, z), Z3_mk_lt(C, a2, z)})})}); }
    Z3_inc_ref(C, bad); if (nl) markNonlin(bad); return bad; };
  // exact first: residual nonzero at all?
  Sup sup = rfSup(d);
  Cond ne = polyRel(d.n, 5); auto sl = sliceFor(sup);
  if (!ne.isConst && d.n.t.size() < 200 && solve(sl, {ne.a}, sup, rlimit_branch, nullptr, 10) == 0) { __sync_fetch_and_add(&S->checks, 1); __sync_fetch_and_add(&S->chkSolver, 1); return; }
  mpq_class bigm = std::max(mpq_class(t * 1000), mpq_class(1, 1000));
  decideCheck(label, mkBad(t), sup, mkBad(bigm));
}
void symrt_reach(const char *label) {
  for (int i = 0; i < 64; i++) { if (i < S->nreach && !strcmp(S->reach[i], label)) { __sync_fetch_and_add(&S->reachCnt[i], 1); return; } if (i >= S->nreach) break; }
  long i = __sync_fetch_and_add(&S->nreach, 1); if (i < 64) { strncpy(S->reach[i], label, 47); __sync_fetch_and_add(&S->reachCnt[i], 1); }
}
void symrt_observe(const char *label, double x) { Sh *h = (Sh *)__sym_args[1]; if (h && h->k == KREAL) observes.push_back({label, h}); else if (!h) observesC.push_back({label, x}); }
void symrt_note(const char *msg) { if (dbg) fprintf(stderr, "[%d] %s\n", getpid(), msg); }
void symrt_config(const char *k, long v) {
  std::string s = k; if (s == "fp") fpMode = v; else if (s == "snap") snapConst = v; else if (s == "branch_ms") branchTmo = v / 1000.0; else if (s == "absfork") absFork = v; else if (s == "maxpaths") { maxPaths = v; } else if (s == "rlimit_branch") rlimit_branch = v; else if (s == "rlimit_check") rlimit_check = v;
}
bool symrt_is_symbolic() { return true; }
void symrt_dump(const char *label, double x) { Sh *h = (Sh *)__sym_args[1]; if (!h) fprintf(stderr, "%s = %g (concrete)\n", label, x); else if (h->k == KREAL) { std::string s; for (auto &t : h->rf->n.t) { s += " + " + t.second.get_str(); for (auto &f : t.first.f) { s += "*" + V[f.first].name + std::to_string(f.first); if (f.second > 1) s += "^" + std::to_string(f.second); } } fprintf(stderr, "%s = [%s ] / %s\n", label, s.c_str(), h->rf->d.empty() ? "1" : h->rf->key().c_str()); for (auto &d : h->rf->d) fprintf(stderr, "   den%d=%s\n", d.first, dens().p[d.first].key().c_str()); } else fprintf(stderr, "%s = %s\n", label, Z3_ast_to_string(C, h->a)); }

}
static void onCrash(int sig);
extern "C" {
void symrt_begin(const char *cname) {
  caseName = cname;
  const char *o = getenv("SYM_OUT"); if (o) outfd = open(o, O_WRONLY | O_CREAT | O_APPEND, 0644);
  dbg = getenv("SYM_DEBUG");
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(S, 0, sizeof *S);
  S->tokens = getenv("SYM_JOBS") ? atol(getenv("SYM_JOBS")) - 1 : 0; S->paths = 1;
  if (getenv("SYM_DEADLINE")) deadline = now() + atof(getenv("SYM_DEADLINE"));
  if (getenv("SYM_MAXPATHS")) maxPaths = atol(getenv("SYM_MAXPATHS"));
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, err);
  REALS = Z3_mk_real_sort(C); BOOLS = Z3_mk_bool_sort(C); F64 = Z3_mk_fpa_sort_double(C); F32 = Z3_mk_fpa_sort_single(C);
  for (Z3_sort s : {REALS, BOOLS, F64, F32}) Z3_inc_ref(C, Z3_sort_to_ast(C, s));
  signal(SIGALRM, onAlarm);
  static char alt[1 << 16]; stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
  for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGTERM}) { struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_NODEFER | (sg == SIGTERM ? 0 : SA_ONSTACK); sigaction(sg, &sa, nullptr); }
}
static volatile sig_atomic_t inCrash = 0;
static void onCrash(int sig) {
  if (inCrash || inSolver) _exit(73); inCrash = 1;
  __sync_fetch_and_add(&S->crashes, 1);
  if (dbg) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); for (auto &c : PC) fprintf(stderr, "PC %s\n", Z3_ast_to_string(C, c.a)); }
  const char *l = sig == SIGTERM ? "no termination within the time limit" : sig == SIGABRT ? "crash: abort" : sig == SIGFPE ? "crash: SIGFPE" : "crash: memory fault";
  emitViolation(l, {}, {}, {}, "path"); _exit(0);
}
void symrt_root() { rootPid = getpid(); }
void symrt_finish() {
  __sync_fetch_and_add(&S->pathsEnded, 1);
  long idx = __sync_fetch_and_add(&S->pathSamples, 1);
  if (idx < (getenv("SYM_SAMPLES") ? atol(getenv("SYM_SAMPLES")) : 6) && !fpMode) {
    Mod m; int r = fullModel({}, {}, m, rlimit_branch, 10);
    if (r == 1) {
      std::string s = "{\"t\":\"sample\",\"case\":\"" + jesc(caseName) + "\"," + modelJson(m) + ",\"obs\":[";
      bool f = true; for (auto &o : observes) { if (!f) s += ","; f = false; s += "[\"" + jesc(o.first) + "\"," + "\"" + dstr(evalRF(*o.second->rf, m)) + "\"]"; }
      for (auto &o : observesC) { if (!f) s += ","; f = false; s += "[\"" + jesc(o.first) + "\",\"" + dstr(o.second) + "\"]"; }
      s += "]}"; out(s);
    } else if (r == 0) out("{\"t\":\"sample_unsat\"}");
  }
  waitKids();
  endPath(0);
}
}
