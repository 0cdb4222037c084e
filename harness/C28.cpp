// BOUNDS: bracketing and root searches: EVERY function (uninterpreted) on every interval within [-16,16], up to 4 iterations (bisection), 3 (false position 2, Brent 1, and 2 (thorough tier: 3) on the interval [1,2] with the value at one end scaled to 1, secant 2, Ridders 1, Newton 1); run to convergence: every linear function, bisection to tolerance w/16; bracket expansion up to 3 tries, bracket scans of up to 5 points of every function and of 25 points of an alternating one
// OUTSIDE: rounding, overflow and functions returning NaN; rate of convergence; Newton's derivative is the library's 4-point difference
#include "h.h"
#include <functional>
#include <vector>
#include "mml/base/Function.h"
#include "mml/algorithms/RootFinding/RootFindingBracketing.h"
#include "mml/algorithms/RootFinding/RootFindingMethods.h"
using namespace MML::RootFinding;
static double ab(double x) { return x < 0 ? -x : x; }
struct F : IRealFunction { std::function<double(double)> f; mutable std::vector<double> x, y; F(std::function<double(double)> g) : f(g) {} Real operator()(Real a) const override { double v = f(a); x.push_back(a); y.push_back(v); return v; } };
static double any(double x) { return sym::fn("f", x, -8, 8); }
static RootFindingConfig cfg(double tol, int it) { RootFindingConfig c; c.tolerance = tol; c.max_iterations = it; return c; }
static const AlgorithmStatus OKS = AlgorithmStatus::Success;
struct In { double a, b, lo, w, tol; };
static In in(double minw = 0.25) { In i; i.lo = sym::real("lo", -8, 8); i.w = sym::real("w", minw, 8); i.tol = sym::real("tol", 0.001, 4); bool sw = sym::flag("swap"); i.a = sw ? i.lo + i.w : i.lo; i.b = sw ? i.lo : i.lo + i.w; return i; }
// what every bracketing method promises about any function
static void common(const In &i, F &f, const RootFindingResult &r, int maxit, bool strict = true) {
  bool br = strict ? f.y[0] * f.y[1] < 0 : f.y[0] * f.y[1] <= 0; sym::obs("root", r.root);
  if (!br) { sym::check(!r.converged && r.status == AlgorithmStatus::InvalidInput && !r.error_message.empty() && f.x.size() == 2, "an interval without a sign change is refused"); return; }
  sym::check(r.converged == (r.status == OKS) && r.converged == r.error_message.empty(), "the status says whether the search converged");
  sym::check(r.iterations_used >= 1 && r.iterations_used <= maxit && (r.converged || r.iterations_used == maxit), "iterations are limited and counted");
  sym::eq(r.function_value, f.f(r.root), "the reported function value is the value at the root");
}
static void inside(const In &i, double root) { sym::check((root - i.lo >= -1e-9) & (root - i.lo - i.w <= 1e-9), "the root lies in the interval"); }
CASEN(bisect, 1, 3, 4) { In i = in(); F f(any); auto r = FindRootBisection(f, i.a, i.b, cfg(i.tol, n)); common(i, f, r, n); if (r.status == AlgorithmStatus::InvalidInput) return; inside(i, r.root); double s = f.y[0] < 0 ? i.b - i.a : i.a - i.b, d = r.achieved_tolerance * (s > 0 ? 1 : -1); sym::check(r.function_value <= 0, "the root is on the negative side of the sign change"); if (r.function_value != 0) sym::check(any(r.root + d) >= 0, "a sign change lies within the achieved tolerance"); double e = i.w; for (int k = 0; k < r.iterations_used; k++) e /= 2; sym::eq(r.achieved_tolerance, e, "every step halves the interval"); if (r.converged) sym::check((r.achieved_tolerance < i.tol) | (r.function_value == 0), "a converged search meets the tolerance"); else sym::check(r.achieved_tolerance >= i.tol, "an unconverged search does not"); }
CASEN(falsepos, 1, 2, 2) { In i = in(); F f(any); auto r = FindRootFalsePosition(f, i.a, i.b, cfg(i.tol, n)); common(i, f, r, n); if (r.status == AlgorithmStatus::InvalidInput) return; inside(i, r.root); if (r.converged) sym::check((ab(r.function_value) < i.tol) | (r.achieved_tolerance < i.tol), "a converged search meets the tolerance"); double first = i.a - f.y[0] * (i.b - i.a) / (f.y[1] - f.y[0]); sym::eq(f.x[2], first, "the first step is the secant through the end points"); if (n == 2 && f.x.size() > 3) { double p = f.y[2] < 0 == f.y[0] < 0 ? i.b : i.a, fp = p == i.b ? f.y[1] : f.y[0]; (void)p; (void)fp; } }
CASE(falsepos2) { In i = in(); F f(any); auto r = FindRootFalsePosition(f, i.a, i.b, cfg(1e-3, 2)); sym::assume(f.y[0] * f.y[1] < 0); if (r.iterations_used < 2) return; sym::obs("root", r.root); bool same = (f.y[2] < 0) == (f.y[0] < 0); double p = same ? i.b : i.a, fp = same ? f.y[1] : f.y[0], q = f.x[2], fq = f.y[2]; sym::eq(f.x[3] * (fp - fq), q * fp - p * fq, "the second step is the secant through the end points of the sign change"); }
CASEN(newton, 1, 1, 1) { In i = in(); F f(any); auto r = FindRootNewton(f, i.a, i.b, cfg(i.tol, n)); bool br = f.y[0] * f.y[1] <= 0; sym::obs("root", r.root); if (!br) { sym::check(!r.converged && r.status == AlgorithmStatus::InvalidInput && f.x.size() == 2, "an interval without a sign change is refused"); return; } sym::check(r.converged == (r.status == OKS) && r.converged == r.error_message.empty(), "the status says whether the search converged"); double m = i.lo + i.w / 2; sym::eq(r.function_value, any(r.root), "the reported function value is the value at the root"); sym::check(r.iterations_used == 1, "iterations are counted"); if (r.converged) { inside(i, r.root); sym::check(r.achieved_tolerance < i.tol, "a converged search meets the tolerance"); sym::eq(ab(r.root - m), r.achieved_tolerance, "the achieved tolerance is the last step"); } }
CASEN(newtonquad, 0, 1, 1) { In i = in(); double p = sym::real("p", 1, 4), q = sym::real("q", -4, 4), k = sym::real("k", -1, 1), m = i.lo + i.w / 2; sym::assume(q * q >= 0.25); F f([&](double x) { double t = x - m; return q + p * t + k * t * t; }); auto r = FindRootNewton(f, i.a, i.b, cfg(1e-9, n + 1)); sym::assume(f.y[0] * f.y[1] < 0); sym::obs("root", r.root); if (n == 0) { sym::eq(r.root, m - q / p, "the first step is Newton's from the midpoint", 1e-5); bool out = (i.a - r.root) * (r.root - i.b) < 0; sym::check(!r.converged && (r.status == (out ? AlgorithmStatus::AlgorithmSpecificFailure : AlgorithmStatus::MaxIterationsExceeded)), "leaving the interval is reported"); } else if (f.x.size() > 9) { double t = q / p; sym::eq((f.x.back() - m + t) * (p - 2 * k * t), -(k * t * t), "the second step is Newton's", 1e-4); } }
CASE(newtonlin) { In i = in(); double root = sym::real("root", -16, 16), k = sym::real("k", 0.25, 4); if (sym::flag("down")) k = -k; sym::assume((root > i.lo + 0.01) & (root < i.lo + i.w - 0.01)); F f([&](double x) { return k * (x - root); }); sym::obs("root", root); auto r = FindRootNewton(f, i.a, i.b, cfg(1e-6, 5)); sym::check(r.converged && r.iterations_used <= 2, "converges"); sym::eq(r.root, root, "root of a line", 1e-6); sym::eq(FindRootNewton(f, i.a, i.b, 1e-6), root, "simple interface", 1e-6); }
CASEN(secant, 1, 2, 2) { In i = in(); F f(any); sym::assume(ab(any(i.a)) - ab(any(i.b)) != 0); auto r = FindRootSecant(f, i.a, i.b, cfg(i.tol, n)); bool br = f.y[0] * f.y[1] <= 0; sym::obs("tol", i.tol); if (!br) { sym::check(!r.converged && r.status == AlgorithmStatus::InvalidInput && f.x.size() == 2, "an interval without a sign change is refused"); return; } sym::check(r.converged == (r.status == OKS) && r.converged == r.error_message.empty(), "the status says whether the search converged"); if (f.x.size() < 3) return; sym::eq(r.function_value, f.y.back(), "the reported function value is the value at the root"); sym::eq(r.root, f.x.back(), "the root is the last iterate"); sym::eq(f.x[2] * (f.y[1] - f.y[0]), i.a * f.y[1] - i.b * f.y[0], "the first step is the secant through the end points"); if (r.converged) sym::check(r.achieved_tolerance < i.tol, "a converged search meets the tolerance"); if (n == 2 && f.x.size() > 3) { bool bFirst = ab(f.y[0]) < ab(f.y[1]); double p = bFirst ? i.a : i.b, fp = bFirst ? f.y[0] : f.y[1]; sym::eq(f.x[3] * (f.y[2] - fp), p * f.y[2] - f.x[2] * fp, "the second step is the secant through the last two iterates"); } }
CASE(ridders) { In i = in(); F f(any); auto r = FindRootRidders(f, i.a, i.b, cfg(i.tol, 1)); common(i, f, r, 1); if (r.status == AlgorithmStatus::InvalidInput) return; inside(i, r.root); double fm = f.y[2], m = i.lo + i.w / 2, t = r.root - m, h = m - i.a; sym::eq(f.x[2], m, "the midpoint is evaluated"); sym::eq(t * t * (fm * fm - f.y[0] * f.y[1]), h * h * fm * fm, "Ridders' formula"); sym::check(t * h * (f.y[0] - f.y[1]) * fm >= -1e-9, "towards the sign change"); if (r.converged) sym::check((ab(r.function_value) < i.tol) | (r.achieved_tolerance <= i.tol), "a converged search meets the tolerance"); }
CASEN(brent, 1, 2, 3) { In i; if (n == 1) i = in(); else { i.lo = 1; i.w = 1; i.tol = 0.25; bool sw = sym::flag("swap"); i.a = sw ? 2 : 1; i.b = sw ? 1 : 2; } bool dn = n > 1 && sym::flag("down"); F f([&](double x) { return n > 1 && x == i.a ? (dn ? 1.0 : -1.0) : any(x); }); auto r = FindRootBrent(f, i.a, i.b, cfg(i.tol, n)); common(i, f, r, n); if (r.status == AlgorithmStatus::InvalidInput) return; inside(i, r.root); if (r.converged) { bool ok = r.function_value == 0; for (size_t k = 0; k < f.x.size(); k++) ok = ok | ((f.y[k] * r.function_value <= 0) & (f.x[k] - r.root <= i.tol + 1e-6) & (r.root - f.x[k] <= i.tol + 1e-6)); sym::check(ok, "a sign change lies within the tolerance"); } }
// straight lines: every method finds the root
CASEN(line, 0, 4, 4) { In i = in(); i.tol = 1e-6; double root = sym::real("root", -16, 16), k = sym::real("k", 0.25, 4); if (sym::flag("down")) k = -k; sym::assume((root > i.lo + 0.01) & (root < i.lo + i.w - 0.01)); F f([&](double x) { return k * (x - root); }); sym::obs("root", root); RootFindingResult r; double s = 0; if (n == 0) { r = FindRootFalsePosition(f, i.a, i.b, cfg(1e-6, 5)); s = FindRootFalsePosition(f, i.a, i.b, 1e-6); } else if (n == 1) { r = FindRootSecant(f, i.a, i.b, cfg(1e-6, 5)); s = FindRootSecant(f, i.a, i.b, 1e-6); } else if (n == 2) { r = FindRootRidders(f, i.a, i.b, cfg(1e-6, 5)); s = FindRootRidders(f, i.a, i.b, 1e-6); } else if (n == 3) { r = FindRootBrent(f, i.a, i.b, cfg(1e-6, 8)); s = FindRootBrent(f, i.a, i.b, 1e-6); } else { i.tol = i.w / 16; r = FindRootBisection(f, i.a, i.b, cfg(i.tol, 20)); s = FindRootBisection(f, i.a, i.b, i.tol); } sym::check(r.converged && r.status == OKS, "converges"); sym::check((r.root - root <= i.tol) & (root - r.root <= i.tol), "root of a line"); sym::check((s - root <= i.tol) & (root - s <= i.tol), "simple interface"); }
CASEN(refuse, 0, 5, 5) { In i = in(); double c = sym::real("c", 0.25, 8); if (sym::flag("neg")) c = -c; F f([&](double) { return c; }); sym::obs("c", c); bool t = n == 0 ? THROWS(RootFindingError, FindRootBisection(f, i.a, i.b, 1e-6)) : n == 1 ? THROWS(RootFindingError, FindRootFalsePosition(f, i.a, i.b, 1e-6)) : n == 2 ? THROWS(RootFindingError, FindRootNewton(f, i.a, i.b, 1e-6)) : n == 3 ? THROWS(RootFindingError, FindRootSecant(f, i.a, i.b, 1e-6)) : n == 4 ? THROWS(RootFindingError, FindRootRidders(f, i.a, i.b, 1e-6)) : THROWS(RootFindingError, FindRootBrent(f, i.a, i.b, 1e-6)); sym::check(t, "the simple interface throws without a sign change"); }
// bracket searches
CASEN(bracket, 0, 3, 3) { In i = in(); F f(any); double x1 = i.a, x2 = i.b; bool ok = BracketRoot(f, x1, x2, n); sym::obs("x1", x1); double lo = x1 < x2 ? x1 : x2, hi = x1 < x2 ? x2 : x1; sym::check((lo <= i.lo + 1e-9) & (hi >= i.lo + i.w - 1e-9), "the interval only grows"); sym::check((x1 < x2) == (i.a < i.b), "the ends keep their order"); if (ok) sym::check(any(x1) * any(x2) < 0, "success means a sign change"); double w = i.w; for (size_t k = 2; k < f.x.size(); k++) w *= 2.6; sym::eq(hi - lo, w, "every try widens the interval by 1.6 of its length"); if (!ok) sym::check((int)f.x.size() == 2 + n, "failure only after the last try"); }
CASE(bracketbad) { double x = sym::real("x", -8, 8), y = sym::real("y", -8, 8); F f(any); sym::obs("x", x); double a = x, b = y; bool t = THROWS(RootFindingError, BracketRoot(f, a, b, 1)); sym::check(t == (x == y), "an empty starting interval is refused"); }
CASEN(scan, 1, 4, 5) { double lo = sym::real("lo", -8, 8), w = sym::real("w", 0.25, 8); F f(any); Vector<Real> p, q; int c = FindRootBrackets(f, lo, lo + w, n, p, q); sym::obs("lo", lo); int k = 0; for (int i = 0; i < n; i++) { double a = lo + w * i / n, b = lo + w * (i + 1) / n; if (any(a) * any(b) <= 0) { sym::check(k < c, "no bracket is missed"); if (k < c) { sym::eq(p[k], a, "lower ends"); sym::eq(q[k], b, "upper ends"); } k++; } } sym::check(k == c, "only sign changes are reported"); }
CASE(scanmany) { double lo = sym::real("lo", -8, 8), w = sym::real("w", 0.25, 8), k = sym::real("k", 0.5, 8); int cnt = 0; F f([&](double) { return (cnt++ % 2) ? k : -k; }); Vector<Real> p, q; int c = FindRootBrackets(f, lo, lo + w, 45, p, q); sym::obs("k", k); sym::check(c == 45 && p.size() >= 45 && q.size() >= 45, "the bracket lists grow"); for (int i = 0; i < 45 && i < c; i++) { sym::eq(p[i], lo + w * i / 45, "lower ends"); sym::eq(q[i], lo + w * (i + 1) / 45, "upper ends"); } }
