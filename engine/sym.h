// Harness-side API.  The same harness source is compiled twice: instrumented and
// linked with rt.cpp (symbolic run), and plainly linked with native.cpp (replay of a
// solver model against the real code).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <vector>
extern "C" {
void symrt_begin(const char *cname);
void symrt_root();
void symrt_finish();
double symrt_real(const char *name, double lo, double hi);
int symrt_int(const char *name, int lo, int hi);
int symrt_pick(const char *name, int lo, int hi);
long symrt_long(const char *name, long lo, long hi);
unsigned char symrt_byte(const char *name);
bool symrt_bool(const char *name);
double symrt_fn1(const char *name, double x, double lo, double hi);
double symrt_fn2(const char *name, double x, double y, double lo, double hi);
double symrt_fn3(const char *name, double x, double y, double z, double lo, double hi);
void symrt_angle(double x, int den);
void symrt_assume(bool c);
void symrt_check(bool c, const char *label);
void symrt_check_eq(double a, double b, double tol, const char *label);
void symrt_reach(const char *label);
void symrt_observe(const char *label, double x);
void symrt_note(const char *msg);
void symrt_config(const char *k, long v);
void symrt_dump(const char *label, double x);
bool symrt_is_symbolic();
}
namespace sym {
// names must outlive the call only; kept in static storage for indexed names
inline const char *nm(const char *b, int i) { static char buf[64][64]; static int k = 0; char *p = buf[k++ & 63]; snprintf(p, 64, "%s%d", b, i); return p; }
inline double real(const char *n, double lo = -8, double hi = 8) { return symrt_real(n, lo, hi); }
inline double real(const char *n, int i, double lo, double hi) { return symrt_real(nm(n, i), lo, hi); }
inline std::vector<double> reals(const char *n, int cnt, double lo = -8, double hi = 8) { std::vector<double> v; v.reserve(cnt); for (int i = 0; i < cnt; i++) v.push_back(symrt_real(nm(n, i), lo, hi)); return v; }
inline int integer(const char *n, int lo, int hi) { return symrt_int(n, lo, hi); }
inline int pick(int lo, int hi, const char *n = "pick") { return symrt_pick(n, lo, hi); } // concretised choice: one path per value
inline bool flag(const char *n) { return symrt_pick(n, 0, 1) != 0; }
inline bool boolean(const char *n) { return symrt_bool(n); }
inline bool deep() { const char *e = getenv("VERIF_TIER"); return e && *e == 't'; }
inline void assume(bool c) { symrt_assume(c); }
inline void check(bool c, const char *l) { symrt_check(c, l); }
inline void eq(double a, double b, const char *l, double tol = 1e-7) { symrt_check_eq(a, b, tol, l); }
inline void obs(const char *l, double x) { symrt_observe(l, x); }
inline void reach(const char *l) { symrt_reach(l); }
inline double fn(const char *n, double x, double lo = -64, double hi = 64) { return symrt_fn1(n, x, lo, hi); }
inline double fn(const char *n, double x, double y, double lo, double hi) { return symrt_fn2(n, x, y, lo, hi); }
inline double fn3(const char *n, double x, double y, double z, double lo, double hi) { return symrt_fn3(n, x, y, z, lo, hi); }
// polynomial value by Horner (reference oracle side)
inline double horner(const std::vector<double> &c, double x) { double r = 0; for (int i = (int)c.size() - 1; i >= 0; i--) r = r * x + c[i]; return r; }

struct Case { const char *name; int tier; std::function<void()> fn; };
inline std::vector<Case> &cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char *n, int tier, std::function<void()> f) { cases().push_back({n, tier, f}); } };
} // namespace sym

// E: exception type; F: callable.  0 = no throw, 1 = threw E, 2 = threw something else
template <class E, class F> inline int sym_throws(F f) { try { f(); } catch (const E &) { return 1; } catch (...) { return 2; } return 0; }
#define THROWS(E, ...) (sym_throws<E>([&] { __VA_ARGS__; }) == 1)
#define NOTHROW(...) (sym_throws<std::exception>([&] { __VA_ARGS__; }) == 0)

#define CASE_(id, tier) static void symcase_##id(); static sym::Reg symreg_##id(#id, tier, symcase_##id); static void symcase_##id()
#define CASE(id) CASE_(id, 0)   /* quick and thorough */
#define CASET(id) CASE_(id, 1)  /* thorough only */
// parametrised: CASEN(id, quick up to, thorough up to) over n = lo..hi
#define CASEN(id, lo, qhi, thi) static void symcase_##id(int n); \
  static int symreg_##id = [] { for (int n = lo; n <= thi; n++) { char *s = new char[80]; snprintf(s, 80, "%s.%d", #id, n); sym::cases().push_back({s, n <= qhi ? 0 : 1, [n] { symcase_##id(n); }}); } return 0; }(); \
  static void symcase_##id(int n)

#ifndef SYM_NO_MAIN
int main(int argc, char **argv) {
  if (argc < 2) { for (auto &c : sym::cases()) printf("%s %d\n", c.name, c.tier); return 0; }
  for (auto &c : sym::cases()) if (!strcmp(c.name, argv[1])) {
    symrt_begin(c.name); symrt_root();
    try { c.fn(); }
    catch (const std::exception &e) { symrt_check(false, "no unexpected exception"); symrt_note(e.what()); }
    catch (...) { symrt_check(false, "no unexpected exception"); }
    symrt_finish(); return 0;
  }
  fprintf(stderr, "no case %s\n", argv[1]); return 64;
}
#endif
