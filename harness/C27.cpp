// BOUNDS: adaptive rules: every linear combination of a polynomial and a function with a jump in the bounded interval, depth limits 0 to 3; open and improper rules: every combination of up to 8 powers (of x, of 1/x on half-lines, with an inverse square-root factor at singular ends), every interval end in [-8,8]; line integrals: every straight line and parabola with affine or quadratic fields; surface integrals: affine fields through affine and quadratic patches, tetrahedra and cuboids at every position and scale; Monte Carlo: every integrand over 3 to 8 concrete pseudo-random samples in every box
// OUTSIDE: rounding; integrands outside these families; the GKRule setting of the 2D and 3D adaptive integrators, which is not honoured by them; statistical quality of the samples
#include "h.h"
#include <vector>
#include <functional>
#include "mml/base/Function.h"
#include "mml/interfaces/IFunction.h"
#include "mml/core/Integration/IntegrationBase.h"
#include "mml/core/Integration/GaussKronrod.h"
#include "mml/core/Integration/Integration1D.h"
#include "mml/core/Integration/IntegrationImproper.h"
#include "mml/core/Integration/Integration2DAdaptive.h"
#include "mml/core/Integration/Integration3DAdaptive.h"
#include "mml/core/Integration/MonteCarloIntegration.h"
#include "mml/base/Geometry/Geometry3D.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/core/Integration/PathIntegration.h"
#include "mml/core/Integration/SurfaceIntegration.h"
using namespace MML::Integration;
typedef std::vector<double> Po;
struct F : IRealFunction { std::function<double(double)> f; mutable int calls = 0; F(std::function<double(double)> g) : f(g) {} Real operator()(Real x) const override { calls++; return f(x); } };
static double ab(double x) { return x < 0 ? -x : x; }
static double ev(const Po &c, double t) { double s = 0; for (int i = (int)c.size() - 1; i >= 0; i--) s = s * t + c[i]; return s; }
static double in(const Po &c, double w) { double s = 0; for (int i = (int)c.size() - 1; i >= 0; i--) s = (s + c[i] / (i + 1)) * w; return s; }
static Po po(int n, double lo = -8, double hi = 8) { Po c(n + 1); for (int i = 0; i <= n; i++) c[i] = sym::real("c", i, lo, hi); return c; }
// adaptive Gauss-Kronrod: the value is the sum over the leaves, the error estimate the sum of theirs, every evaluation is counted
CASEN(gkadapt, 0, 3, 4) { double a = sym::real("a", -2, 2), w = sym::real("w", 0.25, 2), b = a + w, k = sym::real("k", -4, 4), c = sym::real("c", -4, 4), tol = sym::real("tol", 1e-6, 1); int calls = 0; double edge = 0.3; auto f = [&](double x) { calls++; return (x - a) > edge * w ? c + k : c; }; GKRule rule = n == 0 ? GKRule::GK21 : GKRule::GK15; int depth = n <= 1 ? n : n; auto r = IntegrateGKAdaptive(f, a, b, tol, 0.0, depth, rule); double exact = c * w + k * w * (1 - edge); sym::obs("value", r.value); sym::check(r.function_evals == calls, "every evaluation is counted"); sym::check(r.error_estimate >= -1e-9, "error estimates are not negative"); if (r.converged) sym::check(r.error_estimate <= tol + 1e-9, "a converged result meets the tolerance"); else sym::check(r.error_estimate > tol / (1 << depth) - 1e-9, "unconverged results miss some tolerance"); int per = rule == GKRule::GK15 ? 15 : 21; sym::check(calls % per == 0 && calls <= per * ((2 << depth) - 1), "subdivision respects the depth limit"); double d = ab(r.value - exact), cell = w / (1 << depth); if (!r.converged) sym::check(d <= ab(k) * cell * 0.3 + 1e-9, "only the cell with the jump is inexact"); }
CASEN(gkpoly, 0, 13, 13) { double a = sym::real("a", -8, 8), w = sym::real("w", 0.25, 2); Po c = po(n > 3 ? 3 : n); if (n > 3) { c.resize(n + 1, 0.0); c[n] = sym::real("cn", -8, 8); } auto r = IntegrateGKAdaptive([&](double x) { return ev(c, x - a); }, a, a + w, 1e-3, 1e-3, 20); sym::obs("a", a); sym::eq(r.value, in(c, w), "polynomials are integrated at the first level"); sym::check(r.converged && r.function_evals == 15, "no subdivision is needed"); sym::eq(IntegrateGaussKronrod([&](double x) { return ev(c, x - a); }, a, a + w, 1e-3), in(c, w), "convenience function"); }
CASE(gkdetail) { double a = sym::real("a", -2, 2), w = sym::real("w", 0.25, 2), k = sym::real("k", 1, 4); auto f = [&](double x) { return (x - a) > 0.3 * w ? k : 0.0; }; auto r = IntegrateGKAdaptive(f, a, a + w, 1e-3, 0.0, 2); auto d = IntegrateGKAdaptiveDetailed(f, a, a + w, {}, 1e-3, 0.0, 2); sym::obs("value", r.value); sym::eq(d.value, r.value, "detailed value"); sym::eq(d.error_estimate, r.error_estimate, "detailed error"); sym::check(d.converged == r.converged && d.function_evaluations == r.function_evals && (d.status == AlgorithmStatus::Success) == r.converged, "detailed status"); }
// adaptive cubature: a plane step in x, constant in the other variables
CASEN(ad2, 0, 2, 3) { double x0 = sym::real("x0", -2, 2), w = sym::real("w", 0.5, 2), y0 = sym::real("y0", -2, 2), h = sym::real("h", 0.5, 2), k = sym::real("k", 0.5, 4), tol = sym::real("tol", 0.001, 1); int calls = 0; auto f = [&](double x, double) { calls++; return (x - x0) > 0.3 * w ? k : 0.0; }; AdaptiveConfig2D cfg; cfg.absoluteTolerance(tol).relativeTolerance(0).maxDepth(n); auto r = IntegrateAdaptive2D(f, x0, x0 + w, y0, y0 + h, cfg); double exact = k * w * h * 0.7; sym::obs("value", r.value); sym::check(r.function_evaluations == calls, "every evaluation is counted"); int cells = calls / 225; sym::check(cells * 225 == calls && (cells - 1) % 4 == 0 && r.cells_subdivided == (cells - 1) / 4, "cells and subdivisions are counted"); sym::check(r.max_depth_reached <= n && (r.max_depth_reached > 0) == (r.cells_subdivided > 0), "depth limit"); sym::check(r.error_estimate <= tol + 1e-9 ? true : !r.converged, "a converged result meets the tolerance"); if (r.error_estimate <= tol / (1 << (2 * n)) - 1e-9) sym::check(r.converged, "a result within every cell's tolerance is converged"); sym::check(ab(r.value - exact) <= k * w * h * 0.3 + 1e-9, "value"); }
CASEN(ad2conv, 0, 2, 2) { // an integrand that is resolved after one subdivision: the step lies on the cell boundary
  double x0 = sym::real("x0", -2, 2), w = sym::real("w", 0.5, 2), y0 = sym::real("y0", -2, 2), h = sym::real("h", 0.5, 2), k = sym::real("k", 1, 4); auto f = [&](double x, double y) { return n == 0 ? ((x - x0) > 0.5 * w ? k : 0.0) : n == 1 ? ((y - y0) > 0.5 * h ? k : 0.0) : ((x - x0) > 0.5 * w ? (y - y0 > 0.5 * h ? k : 0.0) : 0.0); }; auto r = IntegrateAdaptive2D(f, x0, x0 + w, y0, y0 + h, 1e-4, 5); double exact = n < 2 ? k * w * h / 2 : w * h * k / 4; sym::obs("value", exact); sym::eq(r.value, exact, "integral of a step function"); sym::check(r.converged, "converges once every cell has converged"); sym::check(r.cells_subdivided == 1 && r.function_evaluations == 225 * 5 && r.max_depth_reached == 1, "one subdivision"); auto d = IntegrateAdaptive2DDetailed(f, x0, x0 + w, y0, y0 + h, IntegrationConfig{}, 1e-4, 5); sym::eq(d.value, exact, "detailed value"); sym::check(d.converged && d.status == AlgorithmStatus::Success && d.function_evaluations == r.function_evaluations, "detailed status"); }
CASE(ad2poly) { double x0 = sym::real("x0", -2, 2), w = sym::real("w", 0.5, 2), y0 = sym::real("y0", -2, 2), h = sym::real("h", 0.5, 2), c = sym::real("c", -4, 4), d = sym::real("d", -4, 4); auto f = [&](double x, double y) { double u = x - x0, v = y - y0; return c * u * u * v + d * v * v * v * u + 1; }; auto r = IntegrateAdaptive2D(f, x0, x0 + w, y0, y0 + h, 1e-3); sym::obs("c", c); sym::eq(r.value, c * w * w * w / 3 * h * h / 2 + d * h * h * h * h / 4 * w * w / 2 + w * h, "polynomials are integrated by one cell"); sym::check(r.converged && r.cells_subdivided == 0 && r.function_evaluations == 225, "no subdivision"); sym::check(r.error_estimate <= 1e-6, "no error"); auto z = IntegrateAdaptive2D(f, x0 + w, x0, y0, y0 + h, 1e-3); sym::check(z.value == 0 && z.converged && z.function_evaluations == 0, "empty domains give zero"); }
CASE(ad3poly) { double x0 = sym::real("x0", -2, 2), w = sym::real("w", 0.5, 2), z0 = sym::real("z0", -2, 2), c = sym::real("c", -4, 4), d = sym::real("d", -4, 4); auto f = [&](double x, double y, double z) { double u = x - x0, v = z - z0; return c * u * v + d * y; }; auto r = IntegrateAdaptive3D(f, x0, x0 + w, -1, 2, z0, z0 + w, 1e-3); sym::obs("c", c); sym::eq(r.value, 3 * c * w * w * w * w / 4 + d * 1.5 * w * w, "polynomials are integrated by one cell"); sym::check(r.converged && r.cells_subdivided == 0 && r.function_evaluations == 3375, "no subdivision"); auto z = IntegrateAdaptive3D(f, x0, x0 + w, 2, -1, z0, z0 + w, 1e-3); sym::check(z.value == 0 && z.converged, "empty domains give zero"); }
CASEN(ad3conv, 0, 2, 2) { double s0 = sym::real("s0", -2, 2), k = sym::real("k", 1, 4); auto f = [&](double x, double y, double z) { double t = n == 0 ? x : n == 1 ? y : z; return (t - s0) > 1 ? k : 0.0; }; auto r = n == 0 ? IntegrateAdaptive3D(f, s0, s0 + 2, 0, 1, 0, 1, 1e-3, 3) : n == 1 ? IntegrateAdaptive3D(f, 0, 1, s0, s0 + 2, 0, 1, 1e-3, 3) : IntegrateAdaptive3D(f, 0, 1, 0, 1, s0, s0 + 2, 1e-3, 3); sym::obs("k", k); sym::eq(r.value, k, "integral of a step function"); sym::check(r.converged, "converges once every cell has converged"); sym::check(r.cells_subdivided == 1 && r.function_evaluations == 3375 * 9 && r.max_depth_reached == 1, "one subdivision"); }
// open rules
CASEN(open, 0, 9, 9) { double a = sym::real("a", -8, 8), w = sym::real("w", 0.25, 2); Po c(n + 1, 0.0); c[0] = sym::real("c", 0, 1, 8); if (n) c[n] = sym::real("c", n, 0, n < 8 ? 8 : 0.00001); if (n > 1 && n < 8) c[n - 1] = sym::real("c", n - 1, 0, 8); F f([&](double x) { return ev(c, x - a); }); auto r = IntegrateOpen(f, a, a + w, n < 8 ? 1e-8 : 1e-4); sym::obs("value", r.value); sym::eq(r.value, in(c, w), "the open rule is exact to degree 2K-1"); sym::check(r.converged, "converged"); auto d = IntegrateOpenDetailed(f, a, a + w, {}, n < 8 ? 1e-8 : 1e-4); sym::eq(d.value, r.value, "detailed value"); sym::check(d.converged, "detailed status"); }
CASE(midpoint) { double a = sym::real("a", -8, 8), w = sym::real("w", -2, 2); std::vector<double> xs; F f([&](double x) { xs.push_back(x); return 1.0; }); MidpointIntegrator m(f, a, a + w); sym::obs("a", a); int N = 1; for (int s = 0; s < 4; s++) { sym::eq(m.next(), w, "integral of one"); sym::check((int)xs.size() == N, "a third of the points is reused"); N *= 3; } int big = N / 3; std::vector<int> hit(big, 0); for (double x : xs) { (void)x; } for (int i = 0; i < big; i++) { double want = a + w * (2 * i + 1) / (2.0 * big); int c = 0; for (double x : xs) c += (x - want <= 1e-9) & (x - want >= -1e-9); if (w >= 0.5) sym::check(c == 1, "the points are the midpoints of the subdivision"); } }
// half-lines: powers of 1/x become polynomials under the substitution
CASEN(upper, 2, 9, 9) { double a = sym::real("a", -8, 8), c2 = sym::real("c2", 1, 8), cn = sym::real("cn", 0, 8); F f([&](double x) { double u = 1 / (x - a + 1), p = u; for (int i = 1; i < n; i++) p *= u; return c2 * u * u + cn * p; }); auto r = IntegrateUpperInf(f, a, 1e-8); double e = c2 + cn / (n - 1); sym::obs("value", e); sym::eq(r.value, e, "integral to infinity"); sym::check(r.converged, "converged"); sym::eq(IntegrateUpperInfDetailed(f, a, {}, 1e-8).value, e, "detailed"); }
CASEN(lower, 2, 9, 9) { double b = sym::real("b", -8, 8), c2 = sym::real("c2", 1, 8), cn = sym::real("cn", 0, 8); F f([&](double x) { double u = 1 / (b - x + 1), p = u; for (int i = 1; i < n; i++) p *= u; return c2 * u * u + cn * p; }); auto r = IntegrateLowerInf(f, b, 1e-8); double e = c2 + cn / (n - 1); sym::obs("value", e); sym::eq(r.value, e, "integral from minus infinity"); sym::check(r.converged, "converged"); sym::eq(IntegrateLowerInfDetailed(f, b, {}, 1e-8).value, e, "detailed"); }
CASE(wholeline) { double s = sym::real("s", -8, 8), cl = sym::real("cl", 1, 8), cr = sym::real("cr", 1, 8); F f([&](double x) { if (x < s) { double u = 1 / (s - x + 1); return cl * u * u * u; } double u = 1 / (x - s + 1); return cr * u * u; }); auto r = IntegrateInfSplit(f, s, 1e-8); double e = cl / 2 + cr; sym::obs("value", e); sym::eq(r.value, e, "integral over the whole line"); sym::check(r.converged, "converged"); sym::eq(IntegrateInfSplitDetailed(f, s, {}, 1e-8).value, e, "detailed"); F g([&](double x) { if (x < 0) { double u = 1 / (1 - x); return cl * u * u * u; } double u = 1 / (x + 1); return cr * u * u; }); sym::eq(IntegrateInf(g, 1e-8).value, e, "integral over the whole line"); sym::eq(IntegrateInfDetailed(g, {}, 1e-8).value, e, "detailed"); }
// endpoint singularities x^(-1/2) over an interval of length w^2
static double sq(double x) { return x * x; }
CASEN(singular, 0, 4, 4) { double a = sym::real("a", -8, 8), w = sym::real("w", 0.5, 2), c0 = sym::real("c", 0, 1, 8), cn = sym::real("c", 1, 0, 8), L = w * w, b = a + L; auto s = [&](double u) { double r = std::sqrt(u), p = 1; for (int i = 0; i < n; i++) p *= u; return (c0 + cn * p) / r; }; double e = 2 * c0 * w; { double p = w; for (int i = 0; i < n; i++) p *= w * w; e += 2 * cn * p / (2 * n + 1); } F lo([&](double x) { return s(x - a); }), up([&](double x) { return s(b - x); }); sym::obs("value", e); auto r = IntegrateLowerSingular(lo, a, b, 1e-8), q = IntegrateUpperSingular(up, a, b, 1e-8); sym::eq(r.value, e, "singularity at the lower end"); sym::eq(q.value, e, "singularity at the upper end"); sym::check(r.converged && q.converged, "converged"); sym::eq(IntegrateLowerSingularDetailed(lo, a, b, {}, 1e-8).value, e, "detailed"); sym::eq(IntegrateUpperSingularDetailed(up, a, b, {}, 1e-8).value, e, "detailed"); }
CASE(bothsing) { double a = sym::real("a", -8, 8), w = sym::real("w", 0.5, 2), c0 = sym::real("c0", 1, 8), c1 = sym::real("c1", 0, 8), h = w * w, b = a + 2 * h, mid = a + h; F f([&](double x) { return x < mid ? c0 / std::sqrt(x - a) : (c0 + c1 * (b - x)) / std::sqrt(b - x); }); double e = 4 * c0 * w + 2 * c1 * w * h / 3; auto r = IntegrateBothSingular(f, a, b, 1e-8); sym::obs("value", e); sym::eq(r.value, e, "singularities at both ends"); sym::check(r.converged, "converged"); sym::eq(IntegrateBothSingularDetailed(f, a, b, {}, 1e-8).value, e, "detailed"); }
CASE(interior) { double c = sym::real("c", -8, 8), u = sym::real("u", 0.5, 2), v = sym::real("v", 0.5, 2), k = sym::real("k", 1, 8), m = sym::real("m", 1, 8); F f([&](double x) { return x < c ? k / std::sqrt(c - x) : m / std::sqrt(x - c); }); double a = c - u * u, b = c + v * v, e = 2 * k * u + 2 * m * v; auto r = IntegrateInteriorSingular(f, a, b, c, 1e-8); sym::obs("value", e); sym::eq(r.value, e, "singularity inside"); sym::check(r.converged, "converged"); sym::eq(IntegrateInteriorSingularDetailed(f, a, b, c, {}, 1e-8).value, e, "detailed"); }
CASE(interiorbad) { double a = sym::real("a", -8, 8), w = sym::real("w", 0.25, 8), c = sym::real("c", -32, 32); sym::assume((c <= a) | (c >= a + w)); F f([](double) { return 1.0; }); sym::obs("c", c); sym::check(THROWS(std::invalid_argument, IntegrateInteriorSingular(f, a, a + w, c)), "a singular point outside the interval is refused"); IntegrationConfig q; q.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto d = IntegrateInteriorSingularDetailed(f, a, a + w, c, q); sym::check(!d.converged && d.status == AlgorithmStatus::InvalidInput, "reported as invalid input"); }
// line integrals
struct Line3 : IParametricCurve<3> { VectorN<Real, 3> p, q, s; Real getMinT() const override { return -1; } Real getMaxT() const override { return 1; } VectorN<Real, 3> operator()(Real t) const override { return p + q * t + s * (t * t); } };
struct Line2 : IParametricCurve<2> { VectorN<Real, 2> p, q; Real getMinT() const override { return -1; } Real getMaxT() const override { return 1; } VectorN<Real, 2> operator()(Real t) const override { return p + q * t; } };
struct SF : IScalarFunction<3> { std::function<double(const VectorN<Real, 3> &)> f; SF(std::function<double(const VectorN<Real, 3> &)> g) : f(g) {} Real operator()(const VectorN<Real, 3> &v) const override { return f(v); } };
struct VF : IVectorFunction<3> { std::function<VectorN<Real, 3>(const VectorN<Real, 3> &)> f; VF(std::function<VectorN<Real, 3>(const VectorN<Real, 3> &)> g) : f(g) {} VectorN<Real, 3> operator()(const VectorN<Real, 3> &v) const override { return f(v); } };
static Line3 line3(int dir) { static const double D[3][3] = {{2. / 7, 3. / 7, 6. / 7}, {0.6, -0.8, 0}, {0, 0, -1}}; Line3 l; l.p = sVecN<3>("p", -4, 4); double L = sym::real("L", -4, 4); sym::assume(far(L, 0.25)); for (int i = 0; i < 3; i++) { l.q[i] = L * D[dir][i]; l.s[i] = 0; } return l; }
static double len(const VectorN<Real, 3> &q, int dir) { double v = dir == 0 ? q[2] * 7 / 6 : dir == 1 ? q[0] / 0.6 : q[2]; return ab(v); }
CASEN(arclen, 0, 2, 2) { Line3 c = line3(n); double t1 = sym::real("t1", -1, 0.25), t2 = sym::real("t2", 0.5, 1), L = len(c.q, n); F rho([&](double t) { return 1 + (t - t1); }); double w = t2 - t1; sym::obs("L", L); auto r = PathIntegration::ParametricCurveLength<3>(c, t1, t2); sym::eq(r.value, L * w, "length of a line", 1e-5); sym::check(r.converged, "converged"); sym::eq(PathIntegration::ParametricCurveMass<3>(c, rho, t1, t2).value, L * (w + w * w / 2), "mass of a line", 1e-5); sym::eq(PathIntegration::ParametricCurveLength<3>(c, t2, t1).value, -L * w, "parameters in reverse", 1e-5); }
CASE(arclen2) { Line2 c; c.p = sVecN<2>("p", -4, 4); double L = sym::real("L", 0.25, 4); c.q[0] = -0.6 * L; c.q[1] = 0.8 * L; double t1 = sym::real("t1", -1, 0.25), t2 = sym::real("t2", 0.5, 1); sym::obs("L", L); sym::eq(PathIntegration::ParametricCurveLength<2>(c, t1, t2).value, L * (t2 - t1), "length of a line", 1e-5); }
CASEN(scalarline, 0, 2, 2) { Line3 c = line3(n); double L = len(c.q, n); VectorN<Real, 3> g = sVecN<3>("g", -2, 2); double k = sym::real("k", 50, 60); SF f([&](const VectorN<Real, 3> &v) { return k + g[0] * v[0] + g[1] * v[1] + g[2] * v[2]; }); double t1 = -0.5, t2 = 1, m = 0; for (int i = 0; i < 3; i++) m += g[i] * (c.p[i] + c.q[i] * 0.25); sym::obs("L", L); auto r = PathIntegration::LineIntegral(f, c, t1, t2); sym::eq(r.value, (k + m) * L * (t2 - t1), "scalar line integral of an affine field", 1e-5); sym::check(r.converged, "converged"); sym::eq(PathIntegration::LineIntegral(f, c, t2, t1).value, -(k + m) * L * (t2 - t1), "reversed parameters", 1e-5); }
CASE(workline) { Line3 c; c.p = sVecN<3>("p", -2, 2); c.q = sVecN<3>("q", -2, 2); c.s = VectorN<Real, 3>(); VectorN<Real, 3> g = sVecN<3>("g", -2, 2); double a01 = sym::real("a01", -1, 1), a12 = sym::real("a12", -1, 1), a20 = sym::real("a20", -1, 1), k = 40; c.q[0] = sym::real("q0", 4, 5); VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{k + g[0] + a01 * v[1], g[1] + a12 * v[2], g[2] + a20 * v[0]}; }); double t1 = -0.5, t2 = 1, tm = 0.25, e = (k + g[0] + a01 * (c.p[1] + tm * c.q[1])) * c.q[0] + (g[1] + a12 * (c.p[2] + tm * c.q[2])) * c.q[1] + (g[2] + a20 * (c.p[0] + tm * c.q[0])) * c.q[2]; sym::assume(e >= 1); sym::obs("e", e); auto r = PathIntegration::LineIntegral(f, c, t1, t2); sym::eq(r.value, e * (t2 - t1), "work of an affine field along a line", 1e-5); sym::check(r.converged, "converged"); sym::eq(PathIntegration::LineIntegral(f, c, t2, t1).value, -e * (t2 - t1), "work changes sign with the direction", 1e-5); }
CASE(workpara) { Line3 c; c.p = sVecN<3>("p", -2, 2); c.q = sVecN<3>("q", -2, 2); c.s = sVecN<3>("s", -2, 2); VectorN<Real, 3> g = sVecN<3>("g", -2, 2); VF f([&](const VectorN<Real, 3> &) { return g; }); double t1 = sym::real("t1", -1, 0.25), t2 = sym::real("t2", 0.5, 1), e = 0; auto A = c(t1), B = c(t2); for (int i = 0; i < 3; i++) e += g[i] * (B[i] - A[i]); sym::assume(e >= 0.25); sym::obs("e", e); sym::eq(PathIntegration::LineIntegral(f, c, t1, t2).value, e, "work of a constant field depends on the end points only", 1e-5); }
CASE(conserv) { Line3 c; c.p = sVecN<3>("p", -2, 2); c.q = VectorN<Real, 3>{1, -2, sym::real("q2", -2, 2)}; c.s = VectorN<Real, 3>(); double a = sym::real("a", -2, 2), b = sym::real("b", -2, 2), d = sym::real("d", -2, 2); auto phi = [&](const VectorN<Real, 3> &v) { return a * v[0] * v[0] + b * v[0] * v[1] + d * v[1] * v[2]; }; VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{2 * a * v[0] + b * v[1], b * v[0] + d * v[2], d * v[1]}; }); double e = phi(c(0.75)) - phi(c(-0.5)); sym::assume(e >= 0.25); sym::obs("e", e); sym::eq(PathIntegration::LineIntegral(f, c, -0.5, 0.75).value, e, "work of a gradient field is the potential difference", 1e-5); }
// surface integrals
struct Patch : IParametricSurfaceRect<3> { VectorN<Real, 3> p, a, b, uu, ww; Real getMinU() const override { return -10; } Real getMaxU() const override { return 10; } Real getMinW() const override { return -10; } Real getMaxW() const override { return 10; } VectorN<Real, 3> operator()(Real u, Real w) const override { return p + a * u + b * w + uu * (u * u) + ww * (w * w); } };
static VectorN<Real, 3> cross(const VectorN<Real, 3> &a, const VectorN<Real, 3> &b) { return VectorN<Real, 3>{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
CASEN(patch, 0, 2, 2) { static const double A[3][3] = {{1, 0, 0}, {1, 2, 0}, {0, 1, 1}}, B[3][3] = {{0, 1, 0}, {0, 1, 2}, {2, 0, -1}}; Patch s; s.p = sVecN<3>("p", -2, 2); double la = sym::real("la", 0.5, 2), lb = sym::real("lb", 0.5, 2); for (int i = 0; i < 3; i++) { s.a[i] = la * A[n][i]; s.b[i] = lb * B[n][i]; } VectorN<Real, 3> g = sVecN<3>("g", -2, 2); double h0 = sym::real("h0", -2, 2), h1 = sym::real("h1", -2, 2); VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{g[0] + h0 * v[1], g[1] + h1 * v[2], g[2] + h0 * v[0]}; }); double x1 = sym::real("x1", -1, 0), x2 = sym::real("x2", 0.5, 1); auto C = s((x1 + x2) / 2, 0.25), N = cross(s.a, s.b), v = f(C); double e = (v[0] * N[0] + v[1] * N[1] + v[2] * N[2]) * (x2 - x1) * 1.5; sym::obs("e", e); auto r = SurfaceIntegration::SurfaceIntegral(f, s, x1, x2, -0.5, 1, 2, 3); sym::eq(r.value, e, "flux of an affine field through a parallelogram", 1e-5); sym::check(r.iterations == 6, "one evaluation per patch"); sym::check(SurfaceIntegration::SurfaceIntegral(f, s, x2, x1, -0.5, 1, 2, 3).value == 0 && SurfaceIntegration::SurfaceIntegral(f, s, x1, x2, 1, 1).value == 0, "empty parameter domains have no flux"); }
CASE(graph) { Patch s; s.p = sVecN<3>("p", -2, 2); s.a = VectorN<Real, 3>{1, 0, 0}; s.b = VectorN<Real, 3>{0, 1, 0}; double ku = sym::real("ku", -1, 1), kw = 0.5; s.uu = VectorN<Real, 3>{0, 0, ku}; s.ww = VectorN<Real, 3>{0, 0, kw}; VectorN<Real, 3> g = sVecN<3>("g", -2, 2); VF f([&](const VectorN<Real, 3> &) { return g; }); double e = 0; /* normal (-2 ku u, -2 kw w, 1) over [0,1]x[-1,1] */ e = 2 * (g[0] * -ku + g[2]); auto r = SurfaceIntegration::SurfaceIntegral(f, s, 0, 1, -1, 1, 2, 2); sym::obs("e", e); sym::eq(r.value, e, "flux of a constant field through a paraboloid", 1e-5); }
struct Tet : BodyWithTriangleSurfaces { void add(const Pnt3Cart &a, const Pnt3Cart &b, const Pnt3Cart &c) { _surfaces.push_back(Triangle3D(a, b, c)); } bool IsInside(const Pnt3Cart &) const override { return false; } Real Volume() const override { return 0; } Real SurfaceArea() const override { return 0; } };
CASE(tetra) { double s = sym::real("s", 0.5, 2), x = sym::real("x", -2, 2), y = sym::real("y", -2, 2), z = sym::real("z", -2, 2); Pnt3Cart o(x, y, z), a(x + s, y, z), b(x, y + s, z), c(x, y, z + s); Tet t; t.add(o, b, a); t.add(o, a, c); t.add(o, c, b); t.add(a, b, c); VectorN<Real, 3> d = sVecN<3>("d", -2, 2); double k = sym::real("k", -2, 2), g = sym::real("g", -2, 2); VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{g + d[0] * v[0] + k * v[1], d[1] * v[1] - k * v[2], d[2] * v[2] + 3 * v[0]}; }); double e = (d[0] + d[1] + d[2]) * s * s * s / 6; auto r = SurfaceIntegration::SurfaceIntegral(f, t); sym::obs("e", e); sym::eq(r.value, e, "divergence theorem on a tetrahedron"); sym::check(r.iterations == 4, "every face is used"); }
CASE(cube) { double s = sym::real("s", 0.5, 2); Pnt3Cart o(sym::real("x", -2, 2), sym::real("y", -2, 2), sym::real("z", -2, 2)); Cube3D c(s, o); VectorN<Real, 3> d = sVecN<3>("d", -2, 2); double k = sym::real("k", -2, 2), g = sym::real("g", -2, 2); VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{g + d[0] * v[0] + k * v[1], d[1] * v[1] - k * v[2], d[2] * v[2] + 3 * v[0]}; }); double e = (d[0] + d[1] + d[2]) * s * s * s; auto r = SurfaceIntegration::SurfaceIntegral(f, c); sym::obs("e", e); sym::eq(r.value, e, "divergence theorem on a cube"); sym::check(r.iterations == 6, "every face is used"); }
// fields for which one level of refinement quarters the error: converged results are accurate
CASEN(refine, 0, 1, 1) { double k = sym::real("k", -0.9, 0.9), eps = 0.05; VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{0, 0, k * v[0] * v[0]}; }); double r, e; if (n == 0) { r = SurfaceIntegration::SurfaceIntegral(f, Triangle3D(Pnt3Cart(0, 0, 0), Pnt3Cart(1, 0, 0), Pnt3Cart(0, 1, 0)), eps).value; e = k / 12; } else { r = SurfaceIntegration::SurfaceIntegral(f, RectSurface3D(Pnt3Cart(0, 0, 0), Pnt3Cart(1, 0, 0), Pnt3Cart(1, 1, 0), Pnt3Cart(0, 1, 0)), eps).value; e = k / 3; } sym::obs("k", k); sym::check(ab(r - e) <= 4 * eps / 3, "refinement brings the error below the tolerance"); }
CASE(refine2) { double k = sym::real("k", 0.5, 2); VF f([&](const VectorN<Real, 3> &v) { return VectorN<Real, 3>{0, 0, k * v[0] * v[0]}; }); sym::obs("k", k); RectSurface3D q(Pnt3Cart(0, 0, 0), Pnt3Cart(1, 0, 0), Pnt3Cart(1, 1, 0), Pnt3Cart(0, 1, 0)); Triangle3D t(Pnt3Cart(0, 0, 0), Pnt3Cart(1, 0, 0), Pnt3Cart(0, 1, 0)); double E = k / 12; for (int l = 0; l <= 2; l++) { E /= 4; sym::eq(SurfaceIntegration::SurfaceIntegral(f, q, 1e-12, l).value, k / 3 - E, "each level quarters the error on a rectangle"); } E = k / 12 - k / 18; for (int l = 0; l <= 2; l++) { E /= 4; sym::eq(SurfaceIntegration::SurfaceIntegral(f, t, 1e-12, l).value, k / 12 - E, "each level quarters the error on a triangle"); } }
// Monte Carlo: arithmetic of the estimators for every integrand and box
template <int N> struct FN : IScalarFunction<N> { std::function<double(const VectorN<Real, N> &)> f; FN(std::function<double(const VectorN<Real, N> &)> g) : f(g) {} Real operator()(const VectorN<Real, N> &v) const override { return f(v); } };
CASEN(mc, 2, 4, 6) { VectorN<Real, 2> lo = sVecN<2>("lo", -4, 4), w = sVecN<2>("w", 0.5, 4), up = lo + w; std::vector<double> val; bool in = true; FN<2> f([&](const VectorN<Real, 2> &x) { in = in & (x[0] >= lo[0]) & (x[0] <= up[0]) & (x[1] >= lo[1]) & (x[1] <= up[1]); double v = sym::real("f", val.size(), 1, 4); val.push_back(v); return v; }); auto r = MonteCarloIntegrator<2>(7).integrate(f, lo, up, MonteCarloConfig().samples(n).randomSeed(11).error(1e-3)); double s = 0, ss = 0, V = w[0] * w[1]; for (double v : val) { s += v; ss += v * v; } sym::obs("value", r.value); sym::check(in, "samples lie in the box"); sym::check((int)val.size() == n && (int)r.samples_used == n && r.function_evaluations == n, "samples are counted"); sym::eq(r.value, V * s / n, "volume times mean"); sym::eq(r.variance, ss / n - s / n * (s / n), "variance of the samples"); sym::eq(r.error_estimate * r.error_estimate, V * V * r.variance / n, "standard error of the mean"); sym::check(r.converged == (r.error_estimate < 1e-3 * r.value), "converged means the relative error target is met"); }
CASEN(mcanti, 2, 4, 6) { VectorN<Real, 2> lo = sVecN<2>("lo", -4, 4), w = sVecN<2>("w", 0.5, 4), up = lo + w; double c = sym::real("c", 1, 4), gx = sym::real("gx", -2, 2), gy = sym::real("gy", -2, 2); int calls = 0; FN<2> f([&](const VectorN<Real, 2> &x) { calls++; return c + gx * (x[0] - lo[0]) + gy * (x[1] - lo[1]); }); auto r = MonteCarloIntegrator<2>(3).integrate(f, lo, up, MonteCarloConfig().samples(n).randomSeed(5).antithetic(true)); sym::obs("c", c); sym::eq(r.value, w[0] * w[1] * (c + gx * w[0] / 2 + gy * w[1] / 2), "antithetic pairs integrate affine functions exactly"); sym::check(calls == n / 2 * 2 && (int)r.samples_used == calls, "samples are counted"); sym::eq(r.variance, 0, "no variance"); }
CASE(mcconst) { double a = sym::real("a", -4, 4), w = sym::real("w", 0.5, 4), c = sym::real("c", -4, 4); F f([&](double) { return c; }); auto r = IntegrateMonteCarlo1D(f, a, a + w, MonteCarloConfig().samples(5).randomSeed(9)); sym::obs("c", c); sym::eq(r.value, c * w, "constants are integrated exactly"); sym::check(r.error_estimate >= 0, "the error estimate is a number"); sym::eq(r.error_estimate, 0, "without error"); sym::check(r.converged, "and converge"); auto z = IntegrateMonteCarlo1D(f, a, a, MonteCarloConfig().samples(5).randomSeed(9)); sym::check(z.value == 0 && z.converged, "empty domain"); for (int i = 1; i < 40; i++) { F g([&](double) { return i * 0.0137; }); auto q = IntegrateMonteCarlo1D(g, 0, 1, MonteCarloConfig().samples(7).randomSeed(9)); sym::check(q.error_estimate >= 0 && q.converged, "constants whose rounding leaves a tiny negative variance"); } }
CASEN(strat, 1, 2, 2) { int N = n, S = 3, per = 2; if (N == 1) { VectorN<Real, 1> lo = sVecN<1>("lo", -4, 4), w = sVecN<1>("w", 0.5, 4), up = lo + w; std::vector<double> x, v; FN<1> f([&](const VectorN<Real, 1> &p) { x.push_back(p[0]); double t = sym::real("f", v.size(), 1, 4); v.push_back(t); return t; }); auto r = StratifiedMonteCarloIntegrator<1>(4).integrate(f, lo, up, S, per, 8); sym::obs("value", r.value); sym::check((int)x.size() == S * per && (int)r.samples_used == S * per, "samples are counted"); double s = 0; for (int i = 0; i < S * per; i++) { s += v[i]; double u = (x[i] - lo[0]) * S; int c = i / per; sym::check(u >= c * w[0] - 1e-9 && u <= (c + 1) * w[0] + 1e-9, "every stratum receives its samples"); } sym::eq(r.value, w[0] * s / (S * per), "volume times mean"); double m = s / (S * per), q = 0; for (int c = 0; c < S; c++) { double t = (v[2 * c] + v[2 * c + 1]) / 2; q += t * t; } sym::eq(r.error_estimate * r.error_estimate * S, w[0] * w[0] * (q / S - m * m), "error estimate"); }
  else { S = 2; per = 1; VectorN<Real, 2> lo = sVecN<2>("lo", -4, 4), w = sVecN<2>("w", 0.5, 4), up = lo + w; int hit[4] = {0, 0, 0, 0}; double c = sym::real("c", 1, 4); FN<2> f([&](const VectorN<Real, 2> &p) { int i = (p[0] - lo[0]) * 2 > w[0], j = (p[1] - lo[1]) * 2 > w[1]; hit[i * 2 + j]++; return c; }); auto r = StratifiedMonteCarloIntegrator<2>(4).integrate(f, lo, up, S, per, 8); sym::obs("value", r.value); sym::check(hit[0] == 1 && hit[1] == 1 && hit[2] == 1 && hit[3] == 1, "every stratum receives its samples"); sym::eq(r.value, c * w[0] * w[1], "constants are integrated exactly"); } }
CASE(hitmiss) { VectorN<Real, 2> lo = sVecN<2>("lo", -4, 4), w = sVecN<2>("w", 0.5, 4), up = lo + w; double k = sym::real("k", -4, 8); int tot = 0, hits = 0; bool in = true; auto ind = [&](const VectorN<Real, 2> &p) { in = in & (p[0] >= lo[0]) & (p[0] <= up[0]) & (p[1] >= lo[1]) & (p[1] <= up[1]); bool h = p[0] <= k; tot++; hits += h; return h; }; auto r = HitOrMissIntegrator<2>(4).estimateVolume(ind, lo, up, 4, 6); double p = hits / 4.0, V = w[0] * w[1]; sym::obs("value", r.value); sym::check(tot == 4 && (int)r.samples_used == 4 && in, "samples lie in the box and are counted"); sym::eq(r.value, V * p, "volume times hit fraction"); sym::eq(r.error_estimate * r.error_estimate, V * V * p * (1 - p) / 4, "binomial standard error"); }
