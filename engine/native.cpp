// Replay runtime: the same harness, uninstrumented, on concrete inputs.
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
struct FnRow { std::vector<double> a; double v; };
static std::map<std::string, std::deque<std::string>> in; static std::map<std::string, std::vector<FnRow>> fns;
static bool fp = false, failed = false; static long fnmiss = 0; static uint64_t rs = 0; static bool search = false; static std::string failLabels;
static std::vector<std::pair<std::string, std::string>> used;
static double rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11) * (1.0 / 9007199254740992.0); }
static bool next(const char *n, std::string &v) { auto it = in.find(n); if (it == in.end() || it->second.empty()) return false; v = it->second.front(); it->second.pop_front(); return true; }
static double pd(const std::string &v) { if (v.rfind("bits:", 0) == 0) { uint64_t b = strtoull(v.c_str() + 5, nullptr, 10); double d; memcpy(&d, &b, 8); return d; } return strtod(v.c_str(), nullptr); }
static void use(const char *n, const std::string &v) { used.push_back({n, v}); }
extern "C" {
void symrt_begin(const char *) {
  const char *f = getenv("REPLAY"); if (f) { std::ifstream s(f); std::string l; while (std::getline(s, l)) { std::istringstream i(l); std::string k, n; i >> k >> n; if (k == "i") { std::string v; i >> v; in[n].push_back(v); } else if (k == "f") { int c; i >> c; FnRow r; r.a.resize(c); std::string t; for (auto &x : r.a) { i >> t; x = pd(t); } i >> t; r.v = pd(t); fns[n].push_back(r); } } }
  if (const char *s = getenv("REPLAY_SEARCH")) { search = true; rs = strtoull(s, nullptr, 10) * 2654435761u + 88172645463325252ull; for (int i = 0; i < 8; i++) rnd(); }
}
void symrt_root() {}
void symrt_finish() {
  if (fnmiss) printf("FNMISS %ld\n", fnmiss);
  if (failed && search) for (auto &u : used) printf("USED %s %s\n", u.first.c_str(), u.second.c_str());
  fflush(stdout); _exit(failed ? 1 : 0); }
double symrt_real(const char *n, double lo, double hi) { std::string v; bool have = next(n, v); double r = have ? pd(v) : (lo <= 0 && hi >= 0 ? 0 : lo > 0 ? lo : hi);
  if (search && !fp && std::isfinite(lo) && std::isfinite(hi)) { double u = rnd(); if (u < 0.5) r = lo + (hi - lo) * rnd(); else if (u < 0.65) { r = std::round(lo + (hi - lo) * rnd()); if (r < lo) r = lo; if (r > hi) r = hi; } char b[40]; snprintf(b, 40, "%.17g", r); use(n, b); } else use(n, v);
  return r; }
int symrt_int(const char *n, int lo, int hi) { std::string v; int r = next(n, v) ? (int)(uint32_t)strtoull(v.c_str(), nullptr, 10) : lo; if (search && rnd() < 0.3) { r = lo + (int)(rnd() * ((double)hi - lo + 1)); if (r > hi) r = hi; } use(n, std::to_string((uint32_t)r)); return r; }
int symrt_pick(const char *n, int lo, int hi) { return symrt_int(n, lo, hi); }
long symrt_long(const char *n, long lo, long hi) { std::string v; long r = next(n, v) ? (long)strtoull(v.c_str(), nullptr, 10) : lo; use(n, std::to_string((uint64_t)r)); (void)hi; return r; }
unsigned char symrt_byte(const char *n) { std::string v; int r = next(n, v) ? atoi(v.c_str()) : 0; use(n, std::to_string(r)); return r; }
bool symrt_bool(const char *n) { std::string v; bool r = next(n, v) ? atoi(v.c_str()) : 0; use(n, r ? "1" : "0"); return r; }
static double app(const char *n, std::vector<double> x, double lo, double hi) {
  double best = 1e300, val = 0; for (auto &r : fns[n]) if (r.a.size() == x.size()) { double d = 0; for (size_t i = 0; i < x.size(); i++) d += std::fabs(r.a[i] - x[i]) / (1 + std::fabs(x[i])); if (d < best) { best = d; val = r.v; } }
  if (best > 1e-7) { fnmiss++; if (best > 1e299) val = (lo + hi) / 2; fns[n].push_back({x, val}); } return val; }
double symrt_fn1(const char *n, double x, double lo, double hi) { return app(n, {x}, lo, hi); }
double symrt_fn2(const char *n, double x, double y, double lo, double hi) { return app(n, {x, y}, lo, hi); }
double symrt_fn3(const char *n, double x, double y, double z, double lo, double hi) { return app(n, {x, y, z}, lo, hi); }
void symrt_angle(double, int) {}
void symrt_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(failed ? 1 : 3); } }
void symrt_check(bool c, const char *l) { if (!c) { failed = true; printf("FAIL %s\n", l); fflush(stdout); } }
void symrt_check_eq(double a, double b, double tol, const char *l) {
  bool ok = (std::isnan(a) && std::isnan(b)) || a == b || (!fp && std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)));
  if (!ok) { failed = true; printf("FAIL %s\nVALUES %.17g %.17g\n", l, a, b); fflush(stdout); } }
void symrt_reach(const char *) {}
void symrt_observe(const char *l, double x) { if (!search) printf("OBS %s\t%.17g\n", l, x); }
void symrt_note(const char *m) { if (!search) printf("NOTE %s\n", m); }
void symrt_config(const char *k, long v) { if (!strcmp(k, "fp")) fp = v; }
void symrt_dump(const char *, double) {}
bool symrt_is_symbolic() { return false; }
}
