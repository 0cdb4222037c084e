// BOUNDS: every polynomial of the degree a rule claims to integrate exactly (trapezoid 1, Simpson 3, Romberg 9, 10-point Gauss 19, Gauss-Kronrod 13 to 21, n-point Gauss 2n-1 for n up to 8) with coefficients in [-8,8] over every interval with lower end in [-8,8] and signed length in [-2,2]; the first inexact degree of trapezoid, Simpson and the error estimates; iterated integrals in two and three dimensions with affine limits
// OUTSIDE: rounding; integrands that are not polynomials; Gauss-Laguerre and Gauss-Hermite weights are checked for fixed parameters
#include "h.h"
#include <vector>
#include <functional>
#include "mml/base/Function.h"
#include "mml/interfaces/IFunction.h"
#include "mml/core/Integration/IntegrationBase.h"
#include "mml/core/Integration/GaussKronrod.h"
#include "mml/core/Integration/Integration1D.h"
#include "mml/core/Integration/GaussianQuadrature.h"
#include "mml/core/Integration/Integration2D.h"
#include "mml/core/Integration/Integration3D.h"
typedef std::vector<double> Po;
struct Iv { double a, w, b; };
static Iv iv(double wl = -2, double wh = 2, double al = -8, double ah = 8) { Iv r; r.a = sym::real("a", al, ah); r.w = sym::real("w", wl, wh); r.b = r.a + r.w; return r; }
static double ev(const Po &c, double t) { double s = 0; for (int i = (int)c.size() - 1; i >= 0; i--) s = s * t + c[i]; return s; }
static double in(const Po &c, double w) { double s = 0; for (int i = (int)c.size() - 1; i >= 0; i--) s = (s + c[i] / (i + 1)) * w; return s; }
// polynomial of degree n in t - a; only the lowest and the two highest coefficients are symbolic for large n
static Po po(int n, double lo = -8, double hi = 8) { Po c(n + 1); for (int i = 0; i <= n; i++) c[i] = (n <= 5 || i == 0 || i >= n - 1) ? sym::real("c", i, lo, hi) : 0.5; return c; }
struct F : IRealFunction { std::function<double(double)> f; mutable int calls = 0; F(std::function<double(double)> g) : f(g) {} Real operator()(Real x) const override { calls++; return f(x); } };
static F on(const Po &c, const Iv &v) { double a = v.a; return F([c, a](double x) { return ev(c, x - a); }); }
typedef std::function<IntegrationResult(const IRealFunction &, double, double)> Rule;
static void exact(const Rule &r, int n, double wlo, const char *l, double err, double lo = -8, double clo = -8) { Iv v = iv(wlo, 2); Po c = po(n, clo); if (clo > 0) for (auto &x : c) sym::assume(x >= 0.5); F f = on(c, v); IntegrationResult q = r(f, v.a, v.b); double e = in(c, v.w); sym::obs("value", e); sym::eq(q.value, e, l); if (err >= 0) { sym::eq(q.error_estimate, 0, "no error is reported for a polynomial both formulas integrate exactly"); sym::check(q.converged, "exact results converge"); } (void)lo; }
#define TRAP_ [](const IRealFunction &f, double a, double b) { return IntegrateTrap(f, a, b); }
// the loop of the adaptive rules stops as soon as two estimates agree, so the integral must not vanish by rounding alone in the replay
CASEN(trap, 0, 1, 1) { exact([](const IRealFunction &f, double a, double b) { return IntegrateTrap(f, a, b); }, n, 0.25, "trapezoid rule is exact for affine functions", 0, 0, 0.5); }
CASEN(simpson, 0, 3, 3) { exact([](const IRealFunction &f, double a, double b) { return IntegrateSimpson(f, a, b); }, n, 0.25, "Simpson's rule is exact for cubics", 0, 0, 0.5); }
CASEN(romberg, 0, 7, 7) { exact([](const IRealFunction &f, double a, double b) { return IntegrateRomberg(f, a, b); }, n, 0.25, "Romberg integration is exact to degree 2K-1", 0, 0, 0.5); }
CASEN(rombtop, 8, 9, 9) { Iv v = iv(0.25, 2); Po c(n + 1); c[0] = sym::real("c", 0, 1, 8); c[n] = sym::real("c", n, 0, 0.0001); F f = on(c, v); double eps = 0.0001; IntegrationResult q = IntegrateRomberg(f, v.a, v.b, eps); sym::obs("value", q.value); sym::eq(q.value, in(c, v.w), "Romberg integration is exact to degree 2K-1"); sym::check(q.converged, "converged"); }
CASEN(gauss10, 0, 19, 19) { exact([](const IRealFunction &f, double a, double b) { return IntegrateGauss10(f, a, b); }, n, -2, "10-point Gauss is exact to degree 19", 0); }
CASEN(gk15, 0, 13, 13) { exact([](const IRealFunction &f, double a, double b) { auto g = Integration::IntegrateGK15([&](double x) { return f(x); }, a, b); sym::check(g.function_evals == 15, "function evaluations"); return IntegrationResult(g.value, g.error_estimate, 0, g.converged); }, n, -2, "Gauss-Kronrod 15 is exact", 0); }
CASEN(gk15k, 14, 21, 21) { exact([](const IRealFunction &f, double a, double b) { auto g = Integration::IntegrateGK15([&](double x) { return f(x); }, a, b); return IntegrationResult(g.value, 0, 0, g.converged); }, n, -2, "Gauss-Kronrod 15 is exact", -1); }
CASEN(gk21, 0, 19, 19) { exact([](const IRealFunction &f, double a, double b) { return IntegrateGK21(f, a, b); }, n, -2, "Gauss-Kronrod 21 is exact", 0); }
CASEN(gk21k, 20, 22, 24) { exact([](const IRealFunction &f, double a, double b) { return IntegrateGK21(f, a, b); }, n, -2, "Gauss-Kronrod 21 is exact", -1); }
CASEN(gk31, 0, 24, 29) { exact([](const IRealFunction &f, double a, double b) { auto g = Integration::IntegrateGK31([&](double x) { return f(x); }, a, b); sym::check(g.function_evals == 31, "function evaluations"); return IntegrationResult(g.value, g.error_estimate, 0, g.converged); }, n, -2, "Gauss-Kronrod 31 is exact", 0); }
// the error estimate is the distance of the embedded Gauss rule, known in closed form one degree above its exactness
CASE(gkerr) { Iv v = iv(-2, 2); double k = sym::real("k", -8, 8); F f([&](double x) { double t = x - v.a, p = t; for (int i = 0; i < 13; i++) p *= t; return k * p; }); auto g = Integration::IntegrateGK15([&](double x) { return f(x); }, v.a, v.b); double w = v.w, p = w; for (int i = 0; i < 14; i++) p *= w; double E = 1; for (int i = 1; i <= 7; i++) E *= i; double d = 1; for (int i = 1; i <= 14; i++) d *= i; E = E * E * E * E / (15 * d * d); double e = k * p * E; sym::obs("e", e); sym::eq(g.error_estimate * 1e3, (e < 0 ? -e : e) * 1e3, "error estimate is the truncation error of the embedded Gauss rule"); }
// linearity and orientation for an arbitrary integrand
static IntegrationResult run(int m, const IRealFunction &f, double a, double b) { switch (m) { case 0: return IntegrateGauss10(f, a, b); case 1: return IntegrateGK21(f, a, b); default: { auto g = m == 2 ? Integration::IntegrateGK15([&](double x) { return f(x); }, a, b) : m == 3 ? Integration::IntegrateGK31([&](double x) { return f(x); }, a, b) : Integration::GKResult(IntegrateGaussLegendre(f, a, b, 5).value, 0, 5, true); return IntegrationResult(g.value, g.error_estimate, g.function_evals, g.converged); } } }
CASEN(anyfun, 0, 4, 4) { double a = sym::real("a", -8, 8), b = sym::real("b", -8, 8); F f([](double x) { return sym::fn("f", x, -8, 8); }), g([](double x) { return -2 * sym::fn("f", x, -8, 8); }); IntegrationResult p = run(n, f, a, b), q = run(n, f, b, a), r = run(n, g, a, b), z = run(n, f, a, a); sym::obs("a", a); sym::eq(q.value, -p.value, "reversing the interval negates the integral"); sym::eq(q.error_estimate, p.error_estimate, "the error estimate does not depend on orientation"); sym::eq(r.value, -2 * p.value, "integration is linear"); sym::eq(z.value, 0, "integral over a point"); sym::check(p.converged, "fixed rules converge"); int want[] = {10, 21, 15, 31, 5}; int c0 = f.calls; run(n, f, a, b); sym::check(f.calls - c0 == want[n], "number of function evaluations"); }
// trapezoid rule on quadratics and Simpson's rule on quartics: the reported error bounds the true one
CASE(trapquad) { Iv v = iv(0.25, 2); double k = sym::real("k", -8, 8), c0 = sym::real("c", -8, 8), eps = sym::real("eps", 0.01, 0.1); F f([&](double x) { return c0 + k * (x - v.a) * (x - v.a); }); sym::assume((c0 >= 0.5) & (k >= -0.25)); IntegrationResult q = IntegrateTrap(f, v.a, v.b, eps); double e = c0 * v.w + k * v.w * v.w * v.w / 3, d = q.value - e, o = q.value; sym::obs("value", q.value); sym::check(q.converged, "converges"); if (d < 0) d = -d; if (o < 0) o = -o; sym::check(d <= q.error_estimate + 1e-9, "the true error is at most the reported one"); sym::check(q.error_estimate <= eps * (o + q.error_estimate) + 1e-9, "the reported error meets the tolerance"); } 
CASE(simpquart) { Iv v = iv(0.25, 2); double k = sym::real("k", -8, 8), c0 = sym::real("c", -8, 8), eps = sym::real("eps", 0.0001, 0.1); F f([&](double x) { double t = (x - v.a) * (x - v.a); return c0 + k * t * t; }); sym::assume((c0 >= 0.5) & (k >= -0.02)); IntegrationResult q = IntegrateSimpson(f, v.a, v.b, eps); double w2 = v.w * v.w, e = c0 * v.w + k * w2 * w2 * v.w / 5, d = q.value - e, o = q.value; sym::obs("value", q.value); sym::check(q.converged, "converges"); if (d < 0) d = -d; if (o < 0) o = -o; sym::check(d <= q.error_estimate + 1e-9, "the true error is at most the reported one"); sym::check(q.error_estimate <= eps * (o + q.error_estimate) + 1e-9, "the reported error meets the tolerance"); }
// dispatch by run-time method, compile-time method and the detailed interface give the same result
static void same(const IntegrationResult &a, const IntegrationResult &b, const char *l) { sym::eq(a.value, b.value, l); sym::eq(a.error_estimate, b.error_estimate, l); sym::check(a.converged == b.converged && a.iterations == b.iterations, l); }
static void sameD(const IntegrationDetailedResult &a, const IntegrationResult &b, int ev) { sym::eq(a.value, b.value, "detailed result has the same value"); sym::eq(a.error_estimate, b.error_estimate, "detailed result has the same error"); sym::check(a.converged == b.converged && a.iterations == b.iterations && (a.status == AlgorithmStatus::Success) == b.converged, "detailed result has the same status"); if (ev) sym::check(a.function_evaluations == ev, "function evaluations are reported"); }
CASE(dispatch) { Iv v = iv(0.25, 2); Po c = po(1, 0.5); F f = on(c, v); double e = in(c, v.w); sym::obs("value", e); auto T = IntegrateTrap(f, v.a, v.b), S = IntegrateSimpson(f, v.a, v.b), R = IntegrateRomberg(f, v.a, v.b), G = IntegrateGauss10(f, v.a, v.b), K = IntegrateGK21(f, v.a, v.b);
  same(Integrate(f, v.a, v.b, TRAP), T, "TRAP"); same(Integrate(f, v.a, v.b, SIMPSON), S, "SIMPSON"); same(Integrate(f, v.a, v.b, ROMBERG), R, "ROMBERG"); same(Integrate(f, v.a, v.b, GAUSS10), G, "GAUSS10"); same(Integrate(f, v.a, v.b, GAUSS10KRONROD21), K, "GAUSS10KRONROD21");
  same(Integrate<TRAP>(f, v.a, v.b), T, "TRAP"); same(Integrate<SIMPSON>(f, v.a, v.b), S, "SIMPSON"); same(Integrate<ROMBERG>(f, v.a, v.b), R, "ROMBERG"); same(Integrate<GAUSS10>(f, v.a, v.b), G, "GAUSS10"); same(Integrate<GAUSS10KRONROD21>(f, v.a, v.b), K, "GAUSS10KRONROD21");
  sameD(IntegrateDetailed(f, v.a, v.b, TRAP), T, 0); sameD(IntegrateDetailed(f, v.a, v.b, SIMPSON), S, 0); sameD(IntegrateDetailed(f, v.a, v.b, ROMBERG), R, 0); sameD(IntegrateDetailed(f, v.a, v.b, GAUSS10), G, 10); sameD(IntegrateDetailed(f, v.a, v.b, GAUSS10KRONROD21), K, 21); sameD(IntegrateDetailed<GAUSS10>(f, v.a, v.b), G, 10); sameD(IntegrateDetailed<SIMPSON>(f, v.a, v.b), S, 0); }
CASE(noconv) { // a function whose estimates keep changing is reported as not converged
  double k = sym::real("k", 0.5, 8); auto save = Defaults::TrapezoidIntegrationMaxSteps; Defaults::TrapezoidIntegrationMaxSteps = 7; F f([&](double x) { return k * x * x; }); auto q = IntegrateTrap(f, -1, 1, 1e-9); auto d = IntegrateTrapDetailed(f, -1, 1, {}, 1e-9); Defaults::TrapezoidIntegrationMaxSteps = save; sym::obs("k", k); sym::check(!q.converged && q.iterations == 7, "unconverged results say so"); sym::check(!d.converged && d.status == AlgorithmStatus::MaxIterationsExceeded && !d.error_message.empty(), "unconverged detailed results say so"); sym::eq(d.value, q.value, "same value"); }
// a function with one free value per refinement level: every sequence of estimates occurs
struct Cap {};
CASEN(levels, 0, 2, 2) { double a = sym::real("a", -8, 8), w = sym::real("w", 0.25, 2), v[9]; for (int i = 0; i < 9; i++) v[i] = i < 2 || i > 4 ? sym::real("v", i, -4, 4) : 1.0; double eps = 0.01; int calls = 0, seen = 0; F f([&](double x) -> double { if (++calls > (n == 2 ? 65 : 129)) throw Cap(); int i = calls <= 2 ? 0 : 1; while (i && (1 << i) + 1 < calls) i++; seen = i; return v[i]; });
  double T[10]; T[0] = w * v[0]; for (int i = 1; i < 9; i++) T[i] = (T[i - 1] + w * v[i]) / 2; sym::obs("a", a); IntegrationResult q; try { q = n == 0 ? IntegrateTrap(f, a, a + w, eps) : n == 1 ? IntegrateSimpson(f, a, a + w, eps) : IntegrateRomberg(f, a, a + w, eps); } catch (const Cap &) { return; }
  int j = seen; sym::check(q.converged && q.iterations == j + (n == 2), "the iterations are counted"); double e = 0, o = 0; if (n == 0) { e = T[j]; o = T[j - 1]; } else if (n == 1) { e = (4 * T[j] - T[j - 1]) / 3; o = (4 * T[j - 1] - T[j - 2]) / 3; } else { double R[5]; for (int i = 0; i < 5; i++) R[i] = T[j - 4 + i]; double p = 4; for (int m = 1; m < 5; m++, p *= 4) for (int i = 0; i < 5 - m; i++) { if (m == 4) o = R[i + 1]; R[i] = (p * R[i + 1] - R[i]) / (p - 1); } e = R[0]; }
  sym::eq(q.value, e, "the value is the last estimate"); double d = e - o; if (d < 0) d = -d; double ref = n == 2 ? e : o; if (ref < 0) ref = -ref; sym::check(d <= eps * ref + 1e-9, "two estimates agree when convergence is reported"); sym::eq(q.error_estimate, d, "the error estimate is their difference"); }
// Gaussian rules
static double mono(int k, double a, double w) { (void)a; double p = w; for (int i = 0; i < k; i++) p *= w; return p / (k + 1); }
CASEN(legendre, 1, 6, 8) { Iv v = iv(-2, 2); GaussQuadratureRule r = GaussLegendreRule(n, v.a, v.b); sym::obs("a", v.a); sym::check(r.n == n && (int)r.nodes.size() == n && (int)r.weights.size() == n, "number of nodes"); for (int k = 0; k <= 2 * n - 1; k++) { double s = 0; for (int i = 0; i < n; i++) { double t = r.nodes[i] - v.a, p = 1; for (int j = 0; j < k; j++) p *= t; s += r.weights[i] * p; } sym::eq(s, mono(k, v.a, v.w), "Gauss-Legendre is exact to degree 2n-1"); } double s = 0; for (int i = 0; i < n; i++) { double t = r.nodes[i] - v.a, p = 1; for (int j = 0; j < 2 * n; j++) p *= t; s += r.weights[i] * p; } if (n <= 4 && v.w >= 1) sym::check(s <= mono(2 * n, v.a, v.w) - 1e-6, "degree 2n is underestimated"); for (int i = 0; i < n; i++) { double t = r.nodes[i] - v.a; sym::check(v.w > 0 ? t >= 0 && t <= v.w : t <= 0 && t >= v.w, "nodes lie in the interval"); sym::check(v.w > 0 ? r.weights[i] >= 0 : r.weights[i] <= 0, "weights have the sign of the interval"); if (i) sym::check(v.w > 0 ? r.nodes[i] >= r.nodes[i - 1] : r.nodes[i] <= r.nodes[i - 1], "nodes are ordered"); } }
CASEN(glint, 1, 6, 8) { Iv v = iv(-2, 2); Po c = po(2 * n - 1); F f = on(c, v); double e = in(c, v.w); sym::obs("value", e); sym::eq(IntegrateGaussLegendre(f, v.a, v.b, n).value, e, "Gauss-Legendre integral"); auto d = IntegrateGaussLegendreDetailed(f, v.a, v.b, n); sym::eq(d.value, e, "detailed Gauss-Legendre integral"); sym::check(d.converged && d.function_evaluations == n, "evaluations"); }
// moments of the weight functions, by recurrence
static double dot(const Po &c, const Po &m) { double s = 0; for (size_t i = 0; i < c.size(); i++) s += c[i] * m[i]; return s; }
static Po pw(int n) { Po c(n + 1); for (int i = 0; i <= n; i++) c[i] = sym::real("c", i, -8, 8); return c; }
CASEN(laguerre, 1, 6, 8) { double al[] = {0, 0.5, -0.5, 1, 2.5}; double a = al[sym::pick(0, 4, "alpha")]; int d = std::min(2 * n - 1, 9); Po c = pw(d), m(d + 1); m[0] = std::tgamma(a + 1); for (int k = 1; k <= d; k++) m[k] = m[k - 1] * (k + a); double sc = m[d]; F f([&](double x) { return ev(c, x) / sc; }); double e = dot(c, m) / sc; sym::obs("value", e); sym::eq(IntegrateGaussLaguerre(f, n, a).value, e, "Gauss-Laguerre is exact to degree 2n-1"); auto D = IntegrateGaussLaguerreDetailed(f, n, a); sym::eq(D.value, e, "detailed Gauss-Laguerre"); sym::check(D.converged && D.function_evaluations == n, "evaluations"); }
CASEN(hermite, 1, 6, 8) { int d = 2 * n - 1; Po c = pw(d), m(d + 1); m[0] = std::sqrt(Constants::PI); for (int k = 2; k <= d; k++) m[k] = m[k - 2] * (k - 1) / 2; double sc = m[d - 1]; F f([&](double x) { return ev(c, x) / sc; }); double e = dot(c, m) / sc; sym::obs("value", e); sym::eq(IntegrateGaussHermite(f, n).value, e, "Gauss-Hermite is exact to degree 2n-1"); auto D = IntegrateGaussHermiteDetailed(f, n); sym::eq(D.value, e, "detailed Gauss-Hermite"); sym::check(D.converged && D.function_evaluations == n, "evaluations"); }
CASEN(cheb1, 1, 6, 8) { int d = 2 * n - 1; Po c = pw(d), m(d + 1); m[0] = Constants::PI; for (int k = 2; k <= d; k++) m[k] = m[k - 2] * (k - 1) / k; F f([&](double x) { return ev(c, x); }); double e = dot(c, m); sym::obs("value", e); sym::eq(IntegrateGaussChebyshev1(f, n).value, e, "Gauss-Chebyshev is exact to degree 2n-1"); auto D = IntegrateGaussChebyshev1Detailed(f, n); sym::eq(D.value, e, "detailed Gauss-Chebyshev"); sym::check(D.converged && D.function_evaluations == n, "evaluations"); }
CASEN(cheb2, 1, 6, 8) { int d = 2 * n - 1; Po c = pw(d), m(d + 1); m[0] = Constants::PI / 2; for (int k = 2; k <= d; k++) m[k] = m[k - 2] * (k - 1) / (k + 2); F f([&](double x) { return ev(c, x); }); double e = dot(c, m); sym::obs("value", e); sym::eq(IntegrateGaussChebyshev2(f, n).value, e, "Gauss-Chebyshev of the second kind is exact to degree 2n-1"); auto D = IntegrateGaussChebyshev2Detailed(f, n); sym::eq(D.value, e, "detailed Gauss-Chebyshev"); sym::check(D.converged && D.function_evaluations == n, "evaluations"); }
// Jacobi: polynomials in 1 + x, whose moments are beta functions
CASEN(jacobi, 2, 6, 8) { double al[] = {0, 0.5, 1, 2, 0.5}, be[] = {0, 0.5, 0, 1.5, 1}; int k = sym::pick(0, 4, "parameters"); double a = al[k], b = be[k]; int d = 2 * n - 1; Po c = pw(d), m(d + 1); for (int j = 0; j <= d; j++) m[j] = std::exp((a + b + j + 1) * std::log(2.0) + std::lgamma(a + 1) + std::lgamma(b + j + 1) - std::lgamma(a + b + j + 2)) / (1 << j); F f([&](double x) { return ev(c, (1 + x) / 2); }); double e = dot(c, m); sym::obs("value", e); sym::eq(IntegrateGaussJacobi(f, a, b, n).value, e, "Gauss-Jacobi is exact to degree 2n-1"); auto D = IntegrateGaussJacobiDetailed(f, a, b, n); sym::eq(D.value, e, "detailed Gauss-Jacobi"); sym::check(D.converged && D.function_evaluations == n, "evaluations"); }
CASE(refuse) { sym::reach("refused"); std::vector<double> x(3), w(2); sym::check(THROWS(VectorDimensionError, GaussLegendre(x, w, -1, 1)) && THROWS(VectorDimensionError, GaussLaguerre(x, w)) && THROWS(VectorDimensionError, GaussHermite(x, w)) && THROWS(VectorDimensionError, GaussJacobi(x, w, 0.5, 0.5)) && THROWS(VectorDimensionError, GaussChebyshev1(x, w)) && THROWS(VectorDimensionError, GaussChebyshev2(x, w)), "nodes and weights of different length are refused"); double a = sym::real("alpha", -8, -1); sym::check(THROWS(NumericalMethodError, GaussJacobiRule(3, a, 0.5)) && THROWS(NumericalMethodError, GaussJacobiRule(3, 0.5, a)), "Jacobi exponents of at most -1 are refused"); }
// exceptions of the integrand: propagated, or turned into a failure by the detailed interface on request
CASE(throwing) { double t = sym::real("t", -2, 2); F f([&](double x) -> double { if (x > t) throw std::runtime_error("boom"); return 1; }); IntegrationConfig keep, quiet; quiet.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; int how = sym_throws<std::runtime_error>([&] { IntegrateGauss10Detailed(f, -1, 1, keep); }); auto r = IntegrateGauss10Detailed(f, -1, 1, quiet); bool any = t < 0.9739065285171717; sym::obs("t", t); sym::check(how == (any ? 1 : 0), "exceptions propagate by default"); sym::check((r.status == AlgorithmStatus::Success) == !any && r.converged == !any, "exceptions become a failure status on request"); }
// iterated integrals over regions with affine limits
static double g_p0, g_p1, g_q0, g_q1;
static Real ylo(Real x) { return g_p0 + g_p1 * x; }
static Real yup(Real x) { return g_q0 + g_q1 * x; }
static Real kLo(Real) { return g_p0; }
static Real kUp(Real) { return g_q0; }
struct F2 : IScalarFunction<2> { std::function<double(double, double)> f; F2(std::function<double(double, double)> g) : f(g) {} Real operator()(const VectorN<Real, 2> &v) const override { return f(v[0], v[1]); } };
struct F3 : IScalarFunction<3> { std::function<double(double, double, double)> f; F3(std::function<double(double, double, double)> g) : f(g) {} Real operator()(const VectorN<Real, 3> &v) const override { return f(v[0], v[1], v[2]); } };
static Po mul(const Po &a, const Po &b) { Po r(a.size() + b.size() - 1, 0.0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static Po lin(const Po &a, double k, const Po &b) { Po r(std::max(a.size(), b.size()), 0.0); for (size_t i = 0; i < a.size(); i++) r[i] += a[i]; for (size_t i = 0; i < b.size(); i++) r[i] += k * b[i]; return r; }
static double defi(const Po &c, double u, double v) { double s = 0, a = u, b = v; for (size_t i = 0; i < c.size(); i++) { s += c[i] / (i + 1) * (b - a); a *= u; b *= v; } return s; }
CASEN(dbl, 0, 1, 1) { IntegrationMethod m = n ? GAUSS10KRONROD21 : GAUSS10; g_p0 = sym::real("p0", -2, 2); g_p1 = sym::real("p1", -1, 1); g_q0 = 1.5; g_q1 = sym::real("q1", -1, 1); double u = sym::real("u", -2, 2), v = sym::real("v", -2, 2), c0 = sym::real("c0", -4, 4), cx = sym::real("cx", -4, 4), cy = sym::real("cy", -4, 4), cxy = n ? 1.0 : sym::real("cxy", -4, 4); F2 f([&](double x, double y) { return c0 + cx * x + cy * y * y + cxy * x * y; }); Po lo{g_p0, g_p1}, up{g_q0, g_q1}, d = lin(up, -1, lo), d2 = lin(mul(up, up), -1, mul(lo, lo)), d3 = lin(mul(mul(up, up), up), -1, mul(mul(lo, lo), lo)); Po inner = lin(lin(mul({c0, cx}, d), cy / 3, d3), cxy / 2, mul({0, 1}, d2)); IntegrationResult r = Integrate2D(f, m, u, v, ylo, yup); double e = defi(inner, u, v); sym::obs("value", e); sym::eq(r.value, e, "double integral over a region with affine limits"); auto D = Integrate2DDetailed(f, m, u, v, ylo, yup); sym::eq(D.value, e, "detailed double integral"); sym::check(r.converged && D.converged, "converged"); }
CASEN(dblmeth, 0, 2, 2) { IntegrationMethod m = n == 0 ? TRAP : n == 1 ? SIMPSON : ROMBERG; g_p0 = sym::real("p0", -2, 2); double h = sym::real("h", 0.25, 2), u = sym::real("u", -2, 2), w = sym::real("w", 0.25, 2), c0 = sym::real("c0", 0.5, 4), cy = sym::real("cy", 0.5, 4), cx = sym::real("cx", 0.5, 4); g_q0 = g_p0 + h; F2 f([&](double x, double y) { return c0 + cx * (x - u) + cy * (y - g_p0); }); double e = c0 * w * h + cx * w * w * h / 2 + cy * h * h * w / 2; IntegrationResult r = Integrate2D(f, m, u, u + w, kLo, kUp); sym::obs("value", e); sym::eq(r.value, e, "double integral by every method"); sym::check(r.converged, "converged"); }
static double g_z0, g_zx, g_zy;
static Real zlo(Real, Real) { return g_z0; }
static Real zup(Real x, Real y) { return 2 + g_zx * x + g_zy * y; }
CASE(triple) { g_p0 = -1; g_p1 = sym::real("p1", -1, 1); g_q0 = 1; g_q1 = 0.5; g_z0 = sym::real("z0", -1, 1); g_zx = sym::real("zx", -1, 1); g_zy = sym::real("zy", -1, 1); double u = -0.5, v = 1, c0 = sym::real("c0", -4, 4), cx = sym::real("cx", -4, 4), cy = sym::real("cy", -4, 4); F3 f([&](double x, double y, double z) { (void)z; return c0 + cx * x + cy * y; }); 
  // inner: (c0 + cx x + cy y)(2 - z0 + zx x + zy y); integrate the quadratic in y between the affine limits, then in x
  double k = 2 - g_z0; Po X{0, 1}, lo{g_p0, g_p1}, up{g_q0, g_q1}, A = mul({c0, cx}, {k, g_zx}), B = lin(mul({c0, cx}, {g_zy}), cy, Po{k, g_zx}); double C = cy * g_zy; Po d1 = lin(up, -1, lo), d2 = lin(mul(up, up), -1, mul(lo, lo)), d3 = lin(mul(mul(up, up), up), -1, mul(mul(lo, lo), lo)); Po inner = lin(lin(mul(A, d1), 0.5, mul(B, d2)), C / 3, d3); double e = defi(inner, u, v); IntegrationResult r = Integrate3D(f, u, v, ylo, yup, zlo, zup); sym::obs("value", e); sym::eq(r.value, e, "triple integral"); }
CASE(triplez) { g_p0 = sym::real("p0", -1, 1); g_q0 = sym::real("q0", -1, 1); g_z0 = sym::real("z0", -1, 1); g_zx = sym::real("zx", -1, 1); g_zy = 0; double u = sym::real("u", -1, 1), v = sym::real("v", -1, 1), cz = sym::real("cz", -4, 4); F3 f([&](double x, double y, double z) { return cz * z * z + x * y; }); Po zu{2, g_zx}, z3 = mul(mul(zu, zu), zu), z1 = zu; z3[0] -= g_z0 * g_z0 * g_z0; z1[0] -= g_z0; double dy = g_q0 - g_p0, dy2 = (g_q0 * g_q0 - g_p0 * g_p0) / 2; double e = cz / 3 * dy * defi(z3, u, v) + dy2 * defi(mul({0, 1}, z1), u, v); sym::obs("value", e); auto r = Integrate3DDetailed(f, u, v, kLo, kUp, zlo, zup); sym::eq(r.value, e, "triple integral"); sym::check(r.converged, "converged"); }
