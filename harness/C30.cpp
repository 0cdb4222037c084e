// BOUNDS: bracketing: EVERY function (uninterpreted) from every starting interval within [-16,16] up to 4 (from [0,1] with f(0) = 0: 5) evaluations; golden section and Brent: EVERY function on brackets [1,2] with inner point 1.4 (either orientation), 4 golden steps and 3 (thorough: 4) Brent steps, 2 (thorough: 3) with derivatives; run to convergence: every parabola with its minimum anywhere in the bracket, every V-shape and parabola with its minimum at 0, maximisation of every downward parabola
// OUTSIDE: rounding, overflow and functions returning NaN; rate of convergence
#include "h.h"
#include <functional>
#include <vector>
#include "mml/base/Function.h"
#include "mml/algorithms/Optimization.h"
using namespace MML::Minimization;
static double ab(double x) { return x < 0 ? -x : x; }
struct Cap {};
struct F : IRealFunction { std::function<double(double)> f; size_t cap; mutable std::vector<double> x, y; F(std::function<double(double)> g, size_t c = 400) : f(g), cap(c) {} Real operator()(Real a) const override { if (x.size() >= cap) throw Cap(); double v = f(a); x.push_back(a); y.push_back(v); return v; } };
static double any(double x) { return sym::fn("f", x, -8, 8); }
static double anyd(double x) { return sym::fn("g", x, -8, 8); }
static MinimumBracket br(double a, double b, double c) { MinimumBracket m; m.ax = a; m.bx = b; m.cx = c; m.fa = m.fb = m.fc = 0; m.valid = true; return m; }
CASEN(bracket, 0, 1, 1) { double lo = n ? 0 : sym::real("lo", -8, 8), w = n ? 1 : sym::real("w", 0.25, 8); bool sw = !n && sym::flag("swap"); F f([&](double x) { return n && x == 0 ? 0 : any(x); }, n ? 5 : 4); sym::obs("lo", lo); MinimumBracket m; try { m = BracketMinimum(f, sw ? lo + w : lo, sw ? lo : lo + w); } catch (const Cap &) { return; }
  sym::check(m.valid, "a bracket found is reported as valid"); double a = m.ax, b = m.bx, c = m.cx; sym::check((b - a) * (c - b) > 0, "the middle point lies strictly between the ends"); sym::check((m.fb <= m.fa) & (m.fb <= m.fc), "the middle value is the lowest of the three"); sym::eq(m.fa, f.f(a), "stored value of the first end"); sym::eq(m.fb, f.f(b), "stored value of the middle"); sym::eq(m.fc, f.f(c), "stored value of the last end"); }
CASE(bracketpar) { double m = sym::real("m", -8, 8), k = sym::real("k", 0.25, 4), c = sym::real("c", -8, 8), a = sym::real("a", -4, 4), w = sym::real("w", 0.25, 4); bool sw = sym::flag("swap"); F f([&](double x) { return c + k * (x - m) * (x - m); }, 8); sym::obs("m", m); MinimumBracket r = BracketMinimum(f, sw ? a + w : a, sw ? a : a + w); sym::check(r.valid, "a parabola is bracketed"); sym::check((r.ax - m) * (r.cx - m) <= 0, "the bracket of a parabola contains its minimum"); }
CASE(bracketnever) { double k = sym::real("k", 0.25, 4), w = sym::real("w", 0.25, 4); F f([&](double x) { return -k * x; }, 2000); MinimumBracket r = BracketMinimum(f, 0, w); sym::obs("k", k); sym::check(!r.valid, "a decreasing line has no bracket"); bool t = THROWS(OptimizationError, GoldenSectionSearch(f, 0, w)); sym::check(t, "golden section without a bracket is refused"); t = THROWS(OptimizationError, BrentMinimize(f, 0, w)); sym::check(t, "Brent without a bracket is refused"); t = THROWS(OptimizationError, BrentMinimizeWithDeriv(f, f, 0, w)); sym::check(t, "Brent with derivatives without a bracket is refused"); }
// what every search promises about any function
static void common(F &f, const MinimizationResult &r, double a, double c, double width) {
  sym::obs("xmin", r.xmin); sym::check((r.xmin - a) * (c - r.xmin) >= 0, "the minimum lies in the bracket"); sym::eq(r.fmin, f.f(r.xmin), "the reported value is the value at the minimum");
  bool low = true; for (double y : f.y) low = low & (r.fmin <= y); sym::check(low, "no evaluated point is lower than the reported minimum");
  double lo = a < c ? a : c, hi = a < c ? c : a; bool L = r.xmin - lo <= width, R = hi - r.xmin <= width; for (double x : f.x) { L = L | ((x < r.xmin) & (r.xmin - x <= width)); R = R | ((x > r.xmin) & (x - r.xmin <= width)); }
  if (r.converged) { sym::check(L, "a higher point close by on the left"); sym::check(R, "a higher point close by on the right"); } }
CASEN(golden, 0, 3, 3) { double s = n & 1 ? -1 : 1, a = 1, c = 2; if (n & 2) { a = 2; c = 1; } double tol = 0.08; F f([&](double x) { return any(s * x); }); MinimumBracket m = br(a, 1.4, c); auto r = GoldenSectionSearch(f, m, tol); sym::check(r.converged, "converges"); common(f, r, a, c, tol * 4); sym::check(r.iterations + 2 == (int)f.x.size(), "one evaluation per iteration"); }
CASEN(goldenlimit, 0, 3, 3) { F f(any); Minimization1DConfig c; c.tolerance = 1e-3; c.max_iterations = n; MinimumBracket m = br(1, 1.4, 2); auto r = GoldenSectionSearch(f, m, 1e-3, n); common(f, r, 1, 2, 1); sym::check(!r.converged && r.iterations == n, "the iteration limit is kept and reported"); }
CASEN(brent, 1, 3, 4) { double tol = sym::flag("wide") ? 0.12 : 0.02; bool sw = sym::flag("swap"); F f(any); MinimumBracket m = br(sw ? 2 : 1, 1.4, sw ? 1 : 2); MinimizationResult r; bool t = false; int it = 0; try { r = BrentMinimize(f, m, tol, n); } catch (const OptimizationError &e) { t = true; it = e.iterations(); } if (t) { sym::check(it == n && (int)f.x.size() == n + 1, "an exhausted search reports its iterations"); bool in = true; for (double x : f.x) in = in & (x > 1) & (x < 2); sym::check(in, "only points of the bracket are evaluated"); return; } sym::check(r.converged && r.iterations <= n && r.iterations == (int)f.x.size(), "iterations are limited and counted"); common(f, r, 1, 2, tol * 4 + 1e-9); }
CASEN(brentd, 1, 2, 3) { double tol = sym::flag("wide") ? 0.12 : 0.02; bool sw = sym::flag("swap"); F f(any), g(anyd); MinimumBracket m = br(sw ? 2 : 1, 1.4, sw ? 1 : 2); MinimizationResult r; bool t = false; int it = 0; try { r = BrentMinimizeWithDeriv(f, g, m, tol, n); } catch (const OptimizationError &e) { t = true; it = e.iterations(); } bool in = true; for (double x : f.x) in = in & (x > 1) & (x < 2); sym::check(in, "only points of the bracket are evaluated"); if (t) { sym::check(it == n && (int)f.x.size() == n + 1, "an exhausted search reports its iterations"); return; } sym::check(r.converged && r.iterations <= n, "iterations are limited and counted"); sym::obs("xmin", r.xmin); sym::eq(r.fmin, any(r.xmin), "the reported value is the value at the minimum"); bool low = true; for (double y : f.y) low = low & (r.fmin <= y); sym::check(low, "no evaluated point is lower than the reported minimum"); }
// parabolas, run to convergence
struct Par { double m, k, c; bool sw; };
static Par par(double lo, double hi) { Par p; p.m = sym::real("m", lo, hi); p.k = sym::real("k", 0.25, 4); p.c = sym::real("c", -8, 8); p.sw = sym::flag("swap"); sym::obs("m", p.m); return p; }
CASEN(parabola, 0, 2, 2) { Par p = par(1.01, 1.99); F f([&](double x) { return p.c + p.k * (x - p.m) * (x - p.m); }), g([&](double x) { return 2 * p.k * (x - p.m); }); MinimumBracket b = br(p.sw ? 2 : 1, 1.4, p.sw ? 1 : 2); double tol = n == 0 ? 0.02 : 0.01; MinimizationResult r; r = n == 0 ? GoldenSectionSearch(f, b, tol) : n == 1 ? BrentMinimize(f, b, tol, 40) : BrentMinimizeWithDeriv(f, g, b, tol, 40); sym::check(r.converged, "converges"); double e = r.xmin - p.m; sym::check((e <= 4 * tol) & (e >= -4 * tol), "within the tolerance of the minimum"); sym::eq(r.fmin, f.f(r.xmin), "value at the minimum"); }
CASEN(atzero, 0, 2, 2) { double k = sym::real("k", 0.25, 4), c = sym::real("c", -8, 8); bool v = n != 1 && sym::flag("v"); F f([&](double x) { return c + (v ? k * ab(x) : k * x * x); }), g([&](double x) { return v ? (x < 0 ? -k : k) : 2 * k * x; }); MinimumBracket b = br(-1, 0.25, 2); sym::obs("k", k); MinimizationResult r = n == 0 ? GoldenSectionSearch(f, b, 1e-3) : n == 1 ? BrentMinimize(f, b, 1e-3, 200) : BrentMinimizeWithDeriv(f, g, b, 1e-3, 400); sym::check(r.converged, "a minimum at 0 is found"); sym::eq(r.xmin, 0, "minimum at 0", 1e-3); }
CASEN(maximize, 0, 3, 3) { Par p = par(1.2, 1.7); F f([&](double x) { return p.c - p.k * (x - p.m) * (x - p.m); }); double a = 1, c = 2, tol = 0.02; if (p.sw) { a = 2; c = 1; } Minimization1DConfig cf; cf.tolerance = tol; cf.max_iterations = 40; auto r = n == 0 ? GoldenSectionMaximize(f, a, c, tol) : n == 1 ? BrentMaximize(f, a, c, tol, 40) : n == 2 ? BrentMaximize(f, a, c, cf) : BrentMaximize(f, a, c); sym::check(r.converged, "converges"); double e = r.xmin - p.m; sym::check((e <= 6 * tol) & (e >= -6 * tol), "within the tolerance of the maximum"); sym::eq(r.fmin, f.f(r.xmin), "the maximum keeps its sign"); }
CASEN(config, 0, 2, 2) { Par p = par(1.2, 1.7); F f([&](double x) { return p.c + p.k * (x - p.m) * (x - p.m); }), g([&](double x) { return 2 * p.k * (x - p.m); }); Minimization1DConfig cf; double tl = n == 0 ? 0.06 : 0.02; cf.tolerance = tl; cf.max_iterations = 40; double a = p.sw ? 2 : 1, c = p.sw ? 1 : 2; auto r = n == 0 ? GoldenSectionSearch(f, a, c, cf) : n == 1 ? BrentMinimize(f, a, c, cf) : BrentMinimizeWithDeriv(f, g, a, c, cf); auto q = n == 0 ? GoldenSectionSearch(f, a, c, tl) : n == 1 ? BrentMinimize(f, a, c, 0.02, 40) : BrentMinimizeWithDeriv(f, g, a, c, 0.02, 40); sym::check(r.converged && r.status == AlgorithmStatus::Success && r.error_message.empty() && !r.algorithm_name.empty(), "success is reported"); sym::eq(r.xmin, q.xmin, "same point as the plain call"); sym::eq(r.fmin, q.fmin, "same value as the plain call"); double e = r.xmin - p.m; sym::check((e <= 6 * tl) & (e >= -6 * tl), "within the tolerance of the minimum"); }
CASE(configlimit) { Par p = par(1.2, 1.7); F f([&](double x) { return p.c + p.k * (x - p.m) * (x - p.m); }); Minimization1DConfig cf; cf.tolerance = 1e-6; cf.max_iterations = 2; auto r = GoldenSectionSearch(f, 1, 2, cf); sym::check(!r.converged && r.status == AlgorithmStatus::MaxIterationsExceeded && !r.error_message.empty() && r.iterations == 2, "an exhausted search is reported"); sym::eq(r.fmin, f.f(r.xmin), "value at the best point"); bool t = THROWS(OptimizationError, BrentMinimize(f, 1, 2, cf)); sym::check(t, "Brent refuses to exceed its limit"); }
CASE(refuse) { double tol = sym::real("tol", -1, 1); F f([&](double x) { return x * x; }); sym::obs("tol", tol); sym::assume((tol <= 0) | (tol >= 0.01)); MinimumBracket b = br(-1, 0.25, 2), bad; bool t = THROWS(NumericInputError, GoldenSectionSearch(f, b, tol)); sym::check(t == (tol <= 0), "golden section refuses a tolerance that is not positive"); if (tol > 0) return; t = THROWS(NumericInputError, BrentMinimize(f, b, tol)); sym::check(t, "Brent refuses it"); t = THROWS(NumericInputError, BrentMinimizeWithDeriv(f, f, b, tol)); sym::check(t, "Brent with derivatives refuses it"); t = THROWS(NumericInputError, BrentMinimize(f, b, 0.1, 0)); sym::check(t, "Brent refuses a limit of 0"); t = THROWS(NumericInputError, BrentMinimize(f, bad, 0.1)); sym::check(t, "Brent refuses an invalid bracket"); t = THROWS(NumericInputError, GoldenSectionSearch(f, bad, 0.1)); sym::check(t, "golden section refuses an invalid bracket"); t = THROWS(NumericInputError, BrentMinimizeWithDeriv(f, f, bad, 0.1)); sym::check(t, "Brent with derivatives refuses an invalid bracket"); }
