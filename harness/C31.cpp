// BOUNDS: Nelder-Mead: EVERY function (uninterpreted values, pairwise distinct) on a concrete simplex, 1-3 variables, the first 4 (thorough tier: 7) evaluations and the iteration they end in, every start and step vector for the first simplex; line minimisation and Powell: parabolic bowls with a symbolic minimum; conjugate gradients: two iterations with every second gradient; BFGS and L-BFGS: EVERY function and gradient for the first line search (up to 5 evaluations, 3 for L-BFGS), every value of one component of the second (third) gradient for the second (third) direction in two variables
// OUTSIDE: rounding, ties between function values in Nelder-Mead, rate of convergence, more than three iterations, dimensions above 3, the Powell direction exchange beyond two concrete bowls
#include "h.h"
#include <functional>
#include <vector>
#include "mml/base/Function.h"
#include "mml/algorithms/OptimizationMultidim.h"
using namespace MML::Optimization;
static double ab(double x) { return x < 0 ? -x : x; }
struct Cap {};
typedef VectorN<Real, 2> V2;
template <int N> struct F : IDifferentiableScalarFunction<N> {
  typedef VectorN<Real, N> V;
  std::function<double(const V &)> f; std::function<V(const V &)> g; mutable std::vector<V> x, gx, gv; mutable std::vector<double> y; size_t cap = 1000, gcap = 1000;
  Real operator()(const V &p) const override { if (x.size() >= cap) throw Cap(); double v = f(p); x.push_back(p); y.push_back(v); return v; }
  void Gradient(const V &p, V &o) const override { if (gx.size() >= gcap) throw Cap(); o = g(p); gx.push_back(p); gv.push_back(o); }
};
static double dot(const V2 &a, const V2 &b) { return a[0] * b[0] + a[1] * b[1]; }
static const AlgorithmStatus OKS = AlgorithmStatus::Success;
// a textbook Nelder-Mead that has to ask for the same points
template <int N> struct Ref {
  typedef VectorN<Real, N> V; std::vector<V> s; std::vector<double> v; const F<N> &f; size_t k = 0; bool ok = true;
  Ref(const F<N> &g, const std::vector<V> &p) : f(g) { for (auto &q : p) { s.push_back(q); v.push_back(next(q)); } }
  double next(const V &p) { if (k >= f.x.size()) throw Cap(); for (int j = 0; j < N; j++) sym::eq(f.x[k][j], p[j], "the trial point is the simplex method's"); return f.y[k++]; }
  int lo() { int b = 0; for (int i = 1; i <= N; i++) if (v[i] < v[b]) b = i; return b; }
  int hi() { int b = 0; for (int i = 1; i <= N; i++) if (v[i] > v[b]) b = i; return b; }
  void step() {
    int h = hi(), l = lo(), n = -1; for (int i = 0; i <= N; i++) if (i != h && (n < 0 || v[i] > v[n])) n = i;
    V c; for (int j = 0; j < N; j++) { c[j] = 0; for (int i = 0; i <= N; i++) if (i != h) c[j] += s[i][j] / N; }
    auto at = [&](double t) { V p; for (int j = 0; j < N; j++) p[j] = c[j] + t * (s[h][j] - c[j]); return p; };
    V r = at(-1); double vr = next(r);
    if (vr < v[l]) { V e = at(-2); double ve = next(e); if (ve < vr) s[h] = e, v[h] = ve; else s[h] = r, v[h] = vr; return; }
    if (vr < v[n]) { s[h] = r; v[h] = vr; return; }
    if (vr < v[h]) { s[h] = r; v[h] = vr; }
    V q = at(0.5); double vq = next(q);
    if (vq < v[h]) { s[h] = q; v[h] = vq; return; }
    V b = s[l]; for (int i = 0; i <= N; i++) if (i != l) { for (int j = 0; j < N; j++) s[i][j] = (s[i][j] + b[j]) / 2; v[i] = next(s[i]); }
  }
};
template <int N> static void nm(int limit, double ftol) {
  typedef VectorN<Real, N> V; F<N> f; f.cap = 3 * limit; int id = 0; f.f = [&](const V &) { char b[16]; snprintf(b, 16, "f%d", id++); double v = sym::real(b, 1, 2); for (double w : f.y) sym::assume(v != w); return v; };
  std::vector<V> p(N + 1); Matrix<Real> m(N + 1, N); for (int i = 0; i <= N; i++) for (int j = 0; j < N; j++) m(i, j) = p[i][j] = (i == j + 1 ? 1 + j * 0.5 : 0) + 0.25 * j + (N > 1 && i == N && j == 0 ? 0.5 : 0);
  NelderMead o(ftol, limit); auto r = o.template Minimize<N>(f, m); sym::obs("fmin", r.fmin);
  sym::check(r.iterations == (int)f.x.size() && o.getNumFuncEvals() == (int)f.x.size(), "function evaluations are counted");
  bool best = true; for (double w : f.y) best = best & (r.fmin <= w); sym::check(best, "no evaluated point is better than the result");
  int at = -1; for (size_t k = 0; k < f.y.size(); k++) if (f.y[k] == r.fmin) at = k; sym::check(at >= 0, "the value was evaluated"); if (at < 0) return; for (int j = 0; j < N; j++) sym::eq(r.xmin[j], f.x[at][j], "the result is the best point");
  double h = o.getSimplexValues()[0], l = h; for (int i = 1; i <= N; i++) { double w = o.getSimplexValues()[i]; if (w > h) h = w; if (w < l) l = w; }
  sym::check((2 * (h - l) < ftol * (h + l + 1e-10)) == r.converged, "converged means a flat simplex");
  sym::check(r.converged | (r.iterations >= limit), "gives up only at the limit");
  Ref<N> ref(f, p); while (ref.k < f.x.size()) ref.step(); bool same = true; for (int i = 0; i <= N; i++) { bool in = false; for (int k = 0; k <= N; k++) in = in | (ref.v[i] == o.getSimplexValues()[k]); same = same & in; } sym::check(same, "the final simplex is the simplex method's");
}
CASEN(nm2, 4, 4, 7) { nm<2>(n, 0.001); }
CASEN(nm1, 3, 4, 6) { nm<1>(n, 0.001); }
CASEN(nm3, 4, 4, 7) { nm<3>(n, 0.001); }
CASEN(nmstart, 0, 2, 2) { typedef VectorN<Real, 3> V; F<3> f; f.cap = 4; V s; Vector<Real> d(3); for (int j = 0; j < 3; j++) { s[j] = sym::real("s", j, -8, 8); d[j] = n ? sym::real("d", j, -4, 4) : 0; } if (n != 1) { d[0] = sym::real("e", -4, 4); d[1] = d[2] = d[0]; } for (int j = 0; j < 3; j++) sym::assume(d[j] != 0); f.f = [&](const V &) { return 1.0 + f.y.size(); }; sym::obs("s", s[0]);
  try { if (n == 0) NelderMeadMinimize<3>(f, s, d[0]); else if (n == 1) NelderMeadMinimize<3>(f, s, d); else { MultidimOptimizationConfig c(1e-6, 50); c.initial_delta = d[0]; NelderMeadMinimize<3>(f, s, c); } } catch (Cap &) {}
  sym::check(f.x.size() == 4, "four vertices"); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) sym::eq(f.x[i][j], s[j] + (i == j + 1 ? d[j] : 0), "the first simplex is the start and one step along every axis"); }
CASEN(nmmax, 0, 1, 1) { F<2> f; int id = 0; f.f = [&](const V2 &) { char b[16]; snprintf(b, 16, "f%d", id++); double v = sym::real(b, -2, -1); for (double w : f.y) sym::assume(v != w); return v; }; MultidimOptimizationConfig c(1e-3, 5); V2 s{0.0, 0.0}; auto r = n ? NelderMeadMinimize<2>(f, s, c) : NelderMeadMaximize<2>(f, s, c); sym::obs("fmin", r.fmin);
  bool best = true; for (double w : f.y) best = best & (n ? r.fmin <= w : r.fmin >= w); sym::check(best, "no evaluated point is better than the result"); int at = -1; for (size_t k = 0; k < f.y.size(); k++) if (f.y[k] == r.fmin) at = k; sym::check(at >= 0, "the value was evaluated"); if (at >= 0) for (int j = 0; j < 2; j++) sym::eq(r.xmin[j], f.x[at][j], "the result is the best point");
  sym::check(r.function_evaluations == (int)f.x.size() && r.algorithm_name == "NelderMead", "diagnostics"); sym::check(r.converged == (r.status == OKS) && r.converged == r.error_message.empty(), "the status says whether the search converged"); }
// functions on a line
CASE(line) { typedef VectorN<Real, 3> V; F<3> f; V p = sVecN<3>("p", -4, 4), d = sVecN<3>("d", -4, 4), gr = sVecN<3>("g", -4, 4); double t = sym::real("t", -8, 8); f.f = [&](const V &) { return 2.0; }; f.g = [&](const V &) { return gr; }; sym::obs("t", t);
  LineFunction<3> l(f, p, d); l(t); DLineFunction<3> dl(f, p, d); dl(t); sym::eq(dl.derivative(t), gr[0] * d[0] + gr[1] * d[1] + gr[2] * d[2], "slope along the line"); for (auto *v : {&f.x[0], &f.x[1], &f.gx[0]}) for (int j = 0; j < 3; j++) sym::eq((*v)[j], p[j] + t * d[j], "point on the line");
  V q = sVecN<3>("q", -4, 4); dl.updateBasePoint(q); dl.updateDirection(p); dl(t); for (int j = 0; j < 3; j++) sym::eq(f.x[2][j], q[j] + t * p[j], "point on the new line"); }
// bowls whose minimum lies at a symbolic place on the first axis
static V2 bowl(F<2> &f, double k, double c0, double c1, double off) { f.f = [=](const V2 &p) { double a = p[0] - c0, b = p[1] - c1; return a * a + k * b * b + off; }; f.g = [=](const V2 &p) { return V2{2 * (p[0] - c0), 2 * k * (p[1] - c1)}; }; return V2{c0, c1}; }
CASEN(linemin, 0, 3, 3) { F<2> f; double off = sym::real("off", 1, 64), d0 = n % 2 ? 0.5 : 1, d1 = n / 2 ? -1.0 : 0.25; bowl(f, 2, 0.75, -0.5, off); V2 p{-1.0 + n, 0.5}, q = p, d{d0, d1}; double f0 = f.f(p), v = LineMinimizer::Minimize<2>(f, p, d, 1e-6); sym::obs("off", off); sym::check(v <= f0, "the line minimum is no worse than the start"); sym::eq(v, f.f(p), "the value is the value at the new point"); for (int j = 0; j < 2; j++) sym::eq(d[j], p[j] - q[j], "the direction becomes the displacement"); sym::eq((p[0] - q[0]) * d1, (p[1] - q[1]) * d0, "the point moves along the direction"); sym::eq((p[0] - 0.75) * d0 + 2 * (p[1] + 0.5) * d1, 0, "the slope along the line vanishes", 1e-4); }

CASEN(lineminsym, 0, 1, 1) { F<2> f; double c = sym::real("c", 0.6, 0.8); bowl(f, 2, c, -0.5, 3); V2 p{n ? 1.5 : -1.0, 0.5}, q = p, d{1.0, 0.0}; double f0 = f.f(p), v = LineMinimizer::Minimize<2>(f, p, d, 0.01); sym::obs("c", c); sym::check(v <= f0, "the line minimum is no worse than the start"); sym::eq(v, f.f(p), "the value is the value at the new point"); sym::eq(d[0], p[0] - q[0], "the direction becomes the displacement"); sym::eq(p[1], q[1], "the point moves along the direction"); sym::eq(p[0], c, "the minimum along the line", 0.02); }
// conjugate gradients: the second direction
CASEN(cg, 0, 1, 1) { F<2> f; V2 g0{-4.0, 3.0}, g1 = V2{sym::real("gx", -4, 4), sym::real("gy", -4, 4)}; sym::assume((ab(g1[0]) > 0.01)); int k = 0; f.f = [&](const V2 &p) { double a = p[0] - 3, b = p[1] + 1; return a * a + 2 * b * b + 2; }; f.g = [&](const V2 &) { if (k++) { f.cap = f.x.size() + 2; return g1; } return g0; }; V2 s{1.0, 1.0}; sym::obs("g1", g1[0]);
  ConjugateGradient o(1e-6, 1e-6, 5, n ? ConjugateGradient::Method::PolakRibiere : ConjugateGradient::Method::FletcherReeves); try { o.Minimize<2>(f, s); } catch (Cap &) {}
  sym::check(f.gx.size() == 2 && f.x.size() == f.cap, "two line searches"); if (f.gx.size() != 2) return; V2 p = f.gx[1], a = f.x[f.cap - 2], b = f.x[f.cap - 1]; double gam = (n ? dot(g1, g1) - dot(g1, g0) : dot(g1, g1)) / 25; sym::eq((p[0] - s[0]) * g0[1], (p[1] - s[1]) * g0[0], "the first search is along the gradient");
  V2 u = a, w = b; bool first = true; for (int j = 0; j < 2; j++) first = first & (a[j] == p[j]); if (!first) { u = b; w = a; } for (int j = 0; j < 2; j++) { sym::eq(u[j], p[j], "the second search starts at the line minimum", 1e-6); sym::eq(w[j] - p[j], -g1[j] - gam * g0[j], "the second direction is the conjugate one", 1e-6); } }
// first line search of the quasi-Newton methods, any function, any gradient
static void any(F<2> &f, const V2 &g0, double lo, double hi) { f.f = [=](const V2 &p) { return sym::fn("f", p[0], p[1], lo, hi); }; f.g = [&f, g0](const V2 &p) { return f.gx.empty() ? g0 : V2{sym::fn("gx", p[0], p[1], -8, 8), sym::fn("gy", p[0], p[1], -8, 8)}; }; }
template <class O> static MultidimMinimizationResult first(O &o, F<2> &f, const V2 &s, const V2 &g0, double ftol, double gtol) {
  auto r = o.template Minimize<2>(f, s); sym::obs("fmin", r.fmin); V2 x{r.xmin[0], r.xmin[1]}, d{x[0] - s[0], x[1] - s[1]};
  sym::eq(r.fmin, f.f(x), "the value is the value at the result"); sym::check(r.fmin <= f.y[0], "the result is no worse than the start"); sym::eq(d[0] * g0[1], d[1] * g0[0], "the first search is along the gradient"); double sl = dot(d, g0); sym::check(sl <= 0, "downhill"); sym::check(r.fmin <= f.y[0] + 1e-4 * sl, "sufficient decrease");
  double fd = f.y[0] - r.fmin, sm = ab(r.fmin) + ab(f.y[0]) + 1e-18; bool conv = 2 * fd <= ftol * sm; double den = ab(r.fmin) > 1 ? ab(r.fmin) : 1; bool grad = true; if (!conv) { V2 g = f.g(x); for (int j = 0; j < 2; j++) { double t = ab(x[j]) > 1 ? ab(x[j]) : 1; grad = grad & (ab(g[j]) * t < gtol * den); } }
  sym::check(r.converged == (conv || grad), "converged means a small decrease or a small gradient"); sym::check(r.iterations == 1 && o.getIterations() == (r.converged ? 0 : 1), "iterations are counted"); sym::eq(o.getCurrentFValue(), r.fmin, "current value"); return r; }
CASEN(bfgs1, 4, 5, 6) { F<2> f; f.cap = n; V2 s{0.0, 0.0}, g0{-1.0, 0.5}; any(f, g0, 1, 4); f.f = [=](const V2 &p) { return p[0] == 0 && p[1] == 0 ? 3.0 : sym::fn("f", p[0], p[1], 1, 4); }; BFGS o(1e-3, 1e-2, 1); MultidimMinimizationResult r; try { r = first(o, f, s, g0, 1e-3, 1e-2); } catch (Cap &) { return; }
  V2 x{r.xmin[0], r.xmin[1]}, g{sym::fn("gx", x[0], x[1], -8, 8), sym::fn("gy", x[0], x[1], -8, 8)}; sym::check(ab(dot(g, g0)) <= 0.9 * dot(g0, g0) + 1e-9, "curvature condition"); }
CASEN(lbfgs1, 3, 4, 5) { F<2> f; f.cap = n; V2 s{0.0, 0.0}, g0{-1.0, 0.5}; any(f, g0, 1, 4); f.f = [=](const V2 &p) { return p[0] == 0 && p[1] == 0 ? 3.0 : sym::fn("f", p[0], p[1], 1, 4); }; LBFGS o(1e-3, 1e-2, 1); try { first(o, f, s, g0, 1e-3, 1e-2); } catch (Cap &) { return; } }
// second and third directions: the steps are accepted at full length, the gradients are arbitrary
static double H[2][2];
static void upd(const V2 &s, const V2 &y) { double r = 1 / dot(s, y), A[2][2], B[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A[i][j] = (i == j) - r * s[i] * y[j]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B[i][j] = A[i][0] * H[0][j] + A[i][1] * H[1][j]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) H[i][j] = B[i][0] * A[j][0] + B[i][1] * A[j][1] + r * s[i] * s[j]; }
static void ident(double g) { H[0][0] = H[1][1] = g; H[0][1] = H[1][0] = 0; }
static V2 sub(const V2 &a, const V2 &b) { return V2{a[0] - b[0], a[1] - b[1]}; }
// steps: number of completed steps before the direction that is checked
template <class O> static bool dirs(O &o, F<2> &f, std::vector<V2> &g, const V2 &s, size_t perStep, std::vector<V2> &x) {
  f.f = [&](const V2 &p) { double v = 40; for (auto &q : x) { if (q[0] == p[0] && q[1] == p[1]) return v; v -= 8; } x.push_back(p); return v; };
  f.g = [&](const V2 &p) { for (size_t k = 0; k < x.size(); k++) if (x[k][0] == p[0] && x[k][1] == p[1]) return k < g.size() ? g[k] : throw Cap(); throw Cap(); }; bool cap = false;
  try { o.template Minimize<2>(f, s); } catch (Cap &) { cap = true; } sym::check(cap && x.size() == g.size() + 1, "full steps are taken"); return x.size() == g.size() + 1; }
static V2 one(int n) { double a = sym::real("a", -1, 1); return n % 2 ? V2{0.25, a} : V2{a, -0.375}; }
static void wolfe(const std::vector<V2> &g, size_t k, const V2 &d) { double a = dot(g[k], d), b = dot(g[k + 1], d); sym::assume((a < 0) & (b <= -0.9 * a) & (b >= 0.9 * a)); }
CASEN(bfgs2, 0, 3, 3) { F<2> f; V2 s{0.0, 0.0}; std::vector<V2> x, g{V2{-1.0, 0.5}, one(n)}; V2 st{1.0, -0.5}; V2 y = sub(g[1], g[0]); sym::assume(dot(st, y) > 0.25); wolfe(g, 0, st); BFGS o(1e-6, 1e-6, 9); sym::obs("g", g[1][0]); if (!dirs(o, f, g, s, 2, x)) return;
  V2 d = sub(x[2], x[1]); if (n < 2) { sym::eq(dot(d, y), -dot(g[1], sub(x[1], x[0])), "quasi-Newton condition", 1e-6); return; } ident(1); upd(sub(x[1], x[0]), y); for (int i = 0; i < 2; i++) sym::eq(d[i], -H[i][0] * g[1][0] - H[i][1] * g[1][1], "the direction is the BFGS one", 1e-6); }
CASEN(lbfgs2, 0, 3, 3) { F<2> f; V2 s{0.0, 0.0}; std::vector<V2> x, g{V2{-1.0, 0.5}, one(n)}; V2 st{1.0, -0.5}; V2 y = sub(g[1], g[0]); sym::assume(dot(st, y) > 0.25); LBFGS o(1e-6, 1e-6, 9); sym::obs("g", g[1][0]); if (!dirs(o, f, g, s, 1, x)) return;
  V2 d = sub(x[2], x[1]); if (n < 2) { sym::eq(dot(d, y), -dot(g[1], sub(x[1], x[0])), "quasi-Newton condition", 1e-6); return; } ident(dot(st, y) / dot(y, y)); upd(sub(x[1], x[0]), y); for (int i = 0; i < 2; i++) sym::eq(d[i], -H[i][0] * g[1][0] - H[i][1] * g[1][1], "the direction is the BFGS one", 1e-6); }
// third direction, with memory 1 and 2: the last gradient is arbitrary
CASEN(third, 0, 5, 5) { F<2> f; V2 s{0.0, 0.0}, g2 = one(n); std::vector<V2> x, g{V2{-1.0, 0.5}, V2{-0.25, 0.375}, g2}; n /= 2;
  V2 s0{1.0, -0.5}, y0 = sub(g[1], g[0]); ident(n == 0 ? 1 : dot(s0, y0) / dot(y0, y0)); upd(s0, y0); V2 s1{-H[0][0] * g[1][0] - H[0][1] * g[1][1], -H[1][0] * g[1][0] - H[1][1] * g[1][1]}, y1 = sub(g2, g[1]); sym::assume(dot(s1, y1) > 0.0625); if (n == 0) wolfe(g, 1, s1); sym::obs("g", g2[0]);
  BFGS b(1e-6, 1e-6, 9); LBFGS l(1e-6, 1e-6, 9, n); if (!(n == 0 ? dirs(b, f, g, s, 2, x) : dirs(l, f, g, s, 1, x))) return; V2 d = sub(x[3], x[2]); for (int i = 0; i < 2; i++) sym::eq(sub(x[2], x[1])[i], s1[i], "second direction", 1e-6);
  if (n) { double gam = dot(s1, y1) / dot(y1, y1); ident(gam); if (n == 2) upd(s0, y0); } upd(s1, y1); for (int i = 0; i < 2; i++) sym::eq(d[i], -H[i][0] * g2[0] - H[i][1] * g2[1], "the third direction is the BFGS one", 1e-5); }
// start at the minimum, bowls, wrappers
static MultidimMinimizationResult run(int m, F<2> &f, const V2 &s, const MultidimOptimizationConfig &c) { switch (m) { case 0: return PowellMinimize<2>(f, s, c); case 1: return ConjugateGradientMinimize<2>(f, s, c); case 2: return ConjugateGradientMinimize<2>(f, s, c, ConjugateGradient::Method::FletcherReeves); case 3: return BFGSMinimize<2>(f, s, c); default: return LBFGSMinimize<2>(f, s, c); } }
static MultidimMinimizationResult run(int m, F<2> &f, const V2 &s, double t) { switch (m) { case 0: return PowellMinimize<2>(f, s, t); case 1: return ConjugateGradientMinimize<2>(f, s, t); case 2: return ConjugateGradientMinimize<2>(f, s, t, ConjugateGradient::Method::FletcherReeves); case 3: return BFGSMinimize<2>(f, s, t); default: return LBFGSMinimize<2>(f, s, t); } }
static const char *const NAME[] = {"Powell", "ConjugateGradient", "ConjugateGradient", "BFGS", "L-BFGS"};
CASEN(atmin, 0, 4, 4) { F<2> f; double off = sym::real("off", -8, 8); sym::assume(ab(off) > 0.25); V2 m = bowl(f, 3, 0.5, -0.25, off); auto r = run(n, f, m, MultidimOptimizationConfig(1e-6, 20)); sym::obs("f", r.fmin); sym::eq(r.fmin, off, "stays at the minimum", 1e-6); for (int j = 0; j < 2; j++) sym::eq(r.xmin[j], m[j], "stays at the minimum", 1e-3); sym::check(r.converged && r.status == OKS && r.iterations == 1 && r.algorithm_name == NAME[n] && r.error_message.empty(), "diagnostics"); }
CASEN(bowl, 0, 9, 9) { F<2> f; double off = sym::real("off", 1, 8); int m = n % 5; V2 c{1.0, -2.0}; f.f = [&](const V2 &p) { double a = p[0] - 1, b = p[1] + 2; return a * a + a * b + 2 * b * b + off; }; f.g = [&](const V2 &p) { double a = p[0] - 1, b = p[1] + 2; return V2{2 * a + b, a + 4 * b}; }; V2 s{-1.0, 1.5}; auto r = n < 5 ? run(m, f, s, MultidimOptimizationConfig(1e-9, 30)) : run(m, f, s, 1e-9); sym::obs("f", r.fmin); for (int j = 0; j < 2; j++) sym::eq(r.xmin[j], c[j], "the bowl's minimum", 1e-3); sym::eq(r.fmin, f.f(V2{r.xmin[0], r.xmin[1]}), "the value is the value at the result"); sym::check(r.converged && r.status == OKS && (r.algorithm_name == NAME[m] || n >= 5), "diagnostics"); bool best = true; for (double v : f.y) best = best & (r.fmin <= v + 1e-6); sym::check(best, "no evaluated point is better"); }
CASEN(limit, 0, 4, 4) { F<2> f; double q = n == 1 || n == 2 ? 0 : 1; double off = sym::real("off", 1, 8); f.f = [&](const V2 &p) { double a = p[0] - 1, b = p[1] + 2; return a * a + a * b + 2 * b * b + q * a * a * a * a + off; }; f.g = [&](const V2 &p) { double a = p[0] - 1, b = p[1] + 2; return V2{2 * a + b + q * 4 * a * a * a, a + 4 * b}; }; V2 s{-1.0, 1.5}; auto r = run(n, f, s, MultidimOptimizationConfig(1e-9, 1)); sym::obs("f", r.fmin); sym::check(!r.converged && r.iterations == 1 && r.status == AlgorithmStatus::MaxIterationsExceeded && !r.error_message.empty() && r.algorithm_name == NAME[n], "stopping at the limit is reported"); sym::check(r.fmin < f.y[0], "better than the start"); }
// refusals
CASEN(refuse, 0, 5, 5) { F<2> f; bowl(f, 1, 0, 0, 1); V2 s{1.0, 1.0}; double t = sym::real("tol", -1, 1); int k = sym::integer("it", -3, 3), which = sym::pick(0, 3, "what"); sym::assume((t <= 0) | (t > 0.25)); sym::obs("tol", t); double nan = __builtin_nan("");
  auto go = [&](double tt, double gt, int kk, const V2 &p) { if (n == 0) NelderMead(tt, kk).Minimize<2>(f, p); else if (n == 1) Powell(tt, kk).Minimize<2>(f, p); else if (n == 2) ConjugateGradient(tt, gt, kk).Minimize<2>(f, p); else if (n == 3) BFGS(tt, gt, kk).Minimize<2>(f, p); else LBFGS(tt, gt, kk).Minimize<2>(f, p); };
  if (n == 5) { sym::check(THROWS(MultidimOptimizationError, NelderMead().Minimize<2>(f, s, Vector<Real>(3, 1.0))), "wrong number of steps"); sym::check(THROWS(MultidimOptimizationError, NelderMead().Minimize<2>(f, Matrix<Real>(2, 3))), "wrong simplex"); sym::check(THROWS(MultidimOptimizationInputError, NelderMead().Minimize<2>(f, s, 0.0)), "zero step"); Vector<Real> z(2, t); z[1] = 0; sym::check(THROWS(MultidimOptimizationInputError, NelderMead().Minimize<2>(f, s, z)), "zero step"); sym::check(THROWS(MultidimOptimizationInputError, NelderMead().Minimize<2>(f, s, nan)), "NaN step"); if (k <= 0) sym::check(THROWS(MultidimOptimizationInputError, LBFGS(1e-3, 1e-3, 5, k).Minimize<2>(f, s)), "memory"); return; }
  if (which == 0) { sym::check(THROWS(MultidimOptimizationInputError, go(0.5, 0.5, 5, V2{nan, 1.0})) & THROWS(MultidimOptimizationInputError, go(0.5, 0.5, 5, V2{1.0, HUGE_VAL})), "a start that is not finite is refused"); return; }
  if (which == 1 && n < 2) return; f.cap = 400; bool th = THROWS(MultidimOptimizationInputError, go(which == 2 ? t : 0.5, which == 1 ? t : 0.5, which == 3 ? k : 5, s)); sym::check(th == (which == 3 ? k <= 0 : t <= 0), "bad tolerances and limits are refused, good ones are not"); }
CASEN(nanvalue, 0, 4, 4) { F<2> f; double c = sym::real("c", -1, 1); f.f = [&](const V2 &) { return __builtin_nan(""); }; f.g = [&](const V2 &) { return V2{c, c}; }; V2 s{c, 1.0}; sym::obs("c", c); sym::check(THROWS(MultidimOptimizationInputError, run(n, f, s, 1e-3)), "a start value that is not a number is refused"); if (n == 0) sym::check(THROWS(MultidimOptimizationInputError, NelderMeadMinimize<2>(f, s)), "a start value that is not a number is refused"); if (n) { bowl(f, 1, 0, 0, 1); f.g = [&](const V2 &) { return V2{__builtin_nan(""), c}; }; sym::check(THROWS(MultidimOptimizationInputError, run(n, f, s, 1e-3)), "a gradient that is not a number is refused"); } }
CASE(lbfgstiny) { F<2> f; f.cap = 5; V2 s{0.0, 0.0}, g0{-4e-13, 2e-13}; any(f, g0, 1, 4); f.f = [=](const V2 &p) { return p[0] == 0 && p[1] == 0 ? 3.0 : sym::fn("f", p[0] * 1e12, p[1] * 1e12, 1, 4); }; LBFGS o(1e-3, 1e-2, 1); MultidimMinimizationResult r; try { r = o.Minimize<2>(f, s); } catch (Cap &) { return; } sym::obs("fmin", r.fmin); sym::check(r.fmin <= 3, "the result is no worse than the start"); sym::eq(r.fmin, f.f(V2{r.xmin[0], r.xmin[1]}), "the value is the value at the result"); }
// L-BFGS with two stored pairs forgets the oldest one
CASEN(fourth, 0, 3, 3) { F<2> f; V2 s{0.0, 0.0}, g3 = one(n); n /= 2; std::vector<V2> x, g{V2{-1.0, 0.5}, V2{-0.25, 0.375}, V2{0.25, -0.5}, g3}, st; const size_t m = n + 2; std::vector<V2> ys; V2 p = s; sym::obs("g", g3[0]);
  for (size_t k = 0; k < 4; k++) { size_t a = k > m ? k - m : 0; if (k == 0) ident(1); else { ident(dot(st[k - 1], ys[k - 1]) / dot(ys[k - 1], ys[k - 1])); for (size_t i = a; i < k; i++) upd(st[i], ys[i]); } V2 d{-H[0][0] * g[k][0] - H[0][1] * g[k][1], -H[1][0] * g[k][0] - H[1][1] * g[k][1]}; st.push_back(d); if (k < 3) { ys.push_back(sub(g[k + 1], g[k])); if (k == 2) sym::assume(dot(d, ys[2]) > 0.0625); else if (dot(d, ys[k]) <= 0.01) { sym::check(false, "harness: curvature"); return; } } }
  LBFGS l(1e-6, 1e-6, 9, (int)m); if (!dirs(l, f, g, s, 1, x)) return; for (size_t k = 0; k < 4; k++) for (int i = 0; i < 2; i++) sym::eq(sub(x[k + 1], x[k])[i], st[k][i], "every direction is the limited-memory one", 1e-5); }
