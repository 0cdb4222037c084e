// BOUNDS: every state and parameter of the ready-made flows and maps; linear systems of dimension 1 to 3 in eleven spectral classes with any offset; fixed-point searches of up to 3 iterations; runs of up to 8 Runge-Kutta steps on arbitrary slopes
// OUTSIDE: eigenvalue computation of symbolic Jacobians, convergence of exponents with time, the double pendulum away from twelve pairs of angles, the fixed transient of 100 time units other than in one step per run
#include "h.h"
#include <set>
#include <array>
#include "mml/systems/DynamicalSystem.h"
using namespace MML::Systems; typedef Vector<Real> V; typedef Matrix<Real> M;
struct Fake : IDynamicalSystem { int n; std::function<void(double, const V &, V &)> f; std::function<void(double, const V &, M &)> j; mutable int evals = 0; int cap = 4000; double p = 0; std::vector<double> seen; Fake(int n_, std::function<void(double, const V &, V &)> f_, std::function<void(double, const V &, M &)> j_ = {}) : n(n_), f(f_), j(j_) {}
  int getDim() const override { return n; } int getNumParam() const override { return 1; } Real getParam(int) const override { return p; } void setParam(int, Real v) override { p = v; seen.push_back(v); } V getParams() const override { V v(1); v[0] = p; return v; } void setParams(const V &v) override { p = v[0]; }
  struct Cap {}; void derivs(Real t, const V &x, V &d) const override { if (++evals > cap) throw Cap(); f(t, x, d); } void jacobian(Real t, const V &x, M &J) const override { if (j) { J.Resize(n, n); j(t, x, J); } else IDynamicalSystem::jacobian(t, x, J); } };
static V vec(int n, const char *nm = "x", double w = 2) { V v(n); for (int i = 0; i < n; i++) v[i] = sym::real(nm, -w, w); return v; }
// the Jacobian is the derivative of the right-hand side: Richardson differences are exact for quartics
static void jac(const IDynamicalSystem &s, const V &x, int only = -1, double tol = 1e-7) { int n = s.getDim(); M J(n, n); s.jacobian(0.5, x, J); sym::check(J.rows() == n && J.cols() == n, "shape"); for (int k = 0; k < n; k++) { if (only >= 0 && k == only) continue; V d[4] = {V(n), V(n), V(n), V(n)}; const double h = 0.125; for (int e = 0; e < 4; e++) { V y = x; y[k] = y[k] + (e == 0 ? h : e == 1 ? -h : e == 2 ? h / 2 : -h / 2); s.derivs(0.5, y, d[e]); } for (int i = 0; i < n; i++) { double a = (d[0][i] - d[1][i]) / (2 * h), b = (d[2][i] - d[3][i]) / h; sym::eq(J(i, k), (4 * b - a) / 3, "Jacobian", tol); } } }
static void meta(IDynamicalSystem &s, int n, int p, bool an = true) { sym::check(s.getDim() == n && s.getNumParam() == p && s.hasAnalyticalJacobian() == an && s.getDefaultInitialCondition().size() == n, "dimensions"); V q = s.getParams(); sym::check(q.size() == p, "parameters"); std::set<std::string> names; for (int i = 0; i < p; i++) { double v = sym::real("v", -4, 4); s.setParam(i, v); sym::eq(s.getParam(i), v, "parameter"); auto r = s.getParamRange(i); sym::check(r.first <= q[i] && q[i] <= r.second, "default in range"); names.insert(s.getParamName(i)); } for (int i = 0; i < n; i++) names.insert(s.getStateName(i)); sym::check((int)names.size() == n + p, "distinct names"); s.setParams(q); for (int i = 0; i < p; i++) sym::eq(s.getParam(i), q[i], "restored"); }
CASE(lorenz) { double a = sym::real("a", -4, 4), r = sym::real("r", -4, 4), b = sym::real("b", -4, 4); LorenzSystem s(a, r, b); V x = vec(3), d(3); sym::obs("x", x[0]); s.derivs(0, x, d); sym::eq(d[0], a * (x[1] - x[0]), "x'"); sym::eq(d[1], x[0] * (r - x[2]) - x[1], "y'"); sym::eq(d[2], x[0] * x[1] - b * x[2], "z'"); jac(s, x); M J; s.jacobian(0, x, J); sym::eq(s.getDivergence(), J(0, 0) + J(1, 1) + J(2, 2), "divergence"); meta(s = LorenzSystem(), 3, 3); }
CASE(rossler) { double a = sym::real("a", -4, 4), c = sym::real("c", -4, 4), b = sym::real("b", -4, 4); RosslerSystem s(a, b, c); V x = vec(3), d(3); sym::obs("x", x[0]); s.derivs(0, x, d); sym::eq(d[0], -x[1] - x[2], "x'"); sym::eq(d[1], x[0] + a * x[1], "y'"); sym::eq(d[2], b + x[2] * (x[0] - c), "z'"); jac(s, x); meta(s = RosslerSystem(), 3, 3); }
CASE(vdp) { double m = sym::real("m", -4, 4); VanDerPolSystem s(m); V x = vec(2), d(2); sym::obs("x", x[0]); s.derivs(0, x, d); sym::eq(d[0], x[1], "x'"); sym::eq(d[1] + x[0] - m * (1 - x[0] * x[0]) * x[1], 0, "v'"); jac(s, x); meta(s = VanDerPolSystem(), 2, 1); }
CASE(duffing) { double p[5]; for (auto &v : p) v = sym::real("p", -4, 4); DuffingSystem s(p[0], p[1], p[2], p[3], p[4]); V x = vec(3), d(3); sym::obs("x", x[0]); s.derivs(0, x, d); sym::eq(d[0], x[1], "x'"); sym::eq(d[1] + p[0] * x[1] + p[1] * x[0] + p[2] * x[0] * x[0] * x[0], p[3] * std::cos(x[2]), "v'"); sym::eq(d[2], p[4], "theta'"); jac(s, x, 2); M J; s.jacobian(0, x, J); sym::eq(J(0, 2), 0, "Jacobian"); sym::eq(J(1, 2), -p[3] * std::sin(x[2]), "Jacobian"); sym::eq(J(2, 2), 0, "Jacobian"); meta(s = DuffingSystem(), 3, 5); }
CASE(chua) { double p[4]; for (auto &v : p) v = sym::real("p", -4, 4); ChuaCircuit s(p[0], p[1], p[2], p[3]); V x = vec(3), d(3); sym::assume((std::fabs(x[0] - 1) > 0.2) & (std::fabs(x[0] + 1) > 0.2)); sym::obs("x", x[0]); s.derivs(0, x, d); double g = x[0] > 1 ? p[3] * x[0] + p[2] - p[3] : x[0] < -1 ? p[3] * x[0] - p[2] + p[3] : p[2] * x[0]; sym::eq(d[0], p[0] * (x[1] - x[0] - g), "x'"); sym::eq(d[1], x[0] - x[1] + x[2], "y'"); sym::eq(d[2], -p[1] * x[1], "z'"); jac(s, x); meta(s = ChuaCircuit(), 3, 4); }
CASE(henonheiles) { HenonHeilesSystem s; V x = vec(4), d(4); sym::obs("x", x[0]); s.derivs(0, x, d); double H = (x[2] * x[2] + x[3] * x[3] + x[0] * x[0] + x[1] * x[1]) / 2 + x[0] * x[0] * x[1] - x[1] * x[1] * x[1] / 3; sym::eq(s.getEnergy(x), H, "energy"); sym::eq(s.computeInvariant(0, x), H, "invariant"); double hx = x[0] + 2 * x[0] * x[1], hy = x[1] + x[0] * x[0] - x[1] * x[1]; sym::eq(d[0], x[2], "Hamilton"); sym::eq(d[1], x[3], "Hamilton"); sym::eq(d[2], -hx, "Hamilton"); sym::eq(d[3], -hy, "Hamilton"); sym::eq(hx * d[0] + hy * d[1] + x[2] * d[2] + x[3] * d[3], 0, "energy is conserved"); jac(s, x); sym::check(s.getNumInvariants() == 1 && s.isHamiltonian() && !s.isDissipative(), "conserved quantities"); meta(s, 4, 1); }
// equations of motion of the double pendulum at fixed angles for all masses, lengths, gravity and velocities
static const double TH[12][2] = {{0, 0}, {0.5, -0.25}, {1.5, 0.75}, {-2, 1}, {3, -3}, {0.25, 2.5}, {1, 1}, {-1, 0.5}, {0.125, 0}, {0, -2}, {2.25, 1.75}, {-0.5, -1.5}};
CASEN(pendulum, 0, 5, 11) { double m1 = sym::real("m", 0.25, 4), m2 = sym::real("m", 0.25, 4), L1 = sym::real("L", 0.25, 4), L2 = sym::real("L", 0.25, 4), g = sym::real("g", 0, 16), a = TH[n][0], b = TH[n][1], u = sym::real("w", -4, 4), v = sym::real("w", -4, 4), c = std::cos(a - b), s = std::sin(a - b); DoublePendulumSystem P(m1, m2, L1, L2, g); V x{a, b, u, v}, d(4); sym::obs("u", u); P.derivs(0, x, d); sym::eq(d[0], u, "angle"); sym::eq(d[1], v, "angle"); double sc = 1.0 / 256; sym::eq(sc * ((m1 + m2) * L1 * d[2] + m2 * L2 * d[3] * c + m2 * L2 * v * v * s + (m1 + m2) * g * std::sin(a)), 0, "first equation of motion"); sym::eq(sc * (L2 * d[3] + L1 * d[2] * c - L1 * u * u * s + g * std::sin(b)), 0, "second equation of motion"); double E = 0.5 * m1 * L1 * L1 * u * u + 0.5 * m2 * (L1 * L1 * u * u + L2 * L2 * v * v + 2 * L1 * L2 * u * v * c) - (m1 + m2) * g * L1 * std::cos(a) - m2 * g * L2 * std::cos(b); sym::eq(P.getEnergy(x) * sc, E * sc, "energy"); sym::eq(P.computeInvariant(0, x) * sc, E * sc, "invariant"); }
CASE(pendulummeta) { DoublePendulumSystem P; meta(P, 4, 5, false); double s = sym::real("s", -4, 4); sym::obs("s", s); sym::check(!P.isDissipative() && P.getNumInvariants() == 1, "conservative"); V x{0.5, -0.25, 1, -2}, d(4); M J; P.jacobian(0, x, J); for (int k = 0; k < 4; k++) { V p(4), m(4), y = x; y[k] = x[k] + 1e-5; P.derivs(0, y, p); y[k] = x[k] - 1e-5; P.derivs(0, y, m); for (int i = 0; i < 4; i++) sym::eq(s * J(i, k), s * ((p[i] - m[i]) / 2e-5), "Jacobian", 1e-3); } }
CASE(numericjac) { double a[3][3][3], b[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { b[i][j] = sym::real("b", -2, 2); for (int k = j; k < 3; k++) a[i][j][k] = sym::real("a", -2, 2); } Fake s(3, [&](double t, const V &x, V &d) { for (int i = 0; i < 3; i++) { double r = t * i; for (int j = 0; j < 3; j++) { r = r + b[i][j] * x[j]; for (int k = j; k < 3; k++) r = r + a[i][j][k] * x[j] * x[k]; } d[i] = r; } }); V x = vec(3, "x", 1); sym::obs("x", x[0]); M J; s.jacobian(0.5, x, J); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = b[i][j]; for (int k = 0; k < 3; k++) e = e + (k < j ? a[i][k][j] : k == j ? 2 * a[i][j][j] : a[i][j][k]) * x[k]; sym::eq(J(i, j), e, "the default Jacobian is exact for quadratic systems"); } }
// fixed points of linear systems A (x - c)
struct Spec { int n; double a[9]; FixedPointType t; bool st; }; typedef FixedPointType FT;
static const Spec SP[] = {{2, {-1, 0, 0, -3}, FT::StableNode, true}, {2, {2, 1, 0, 3}, FT::UnstableNode, false}, {2, {1, 0, 0, -2}, FT::Saddle, false}, {2, {0, 1, -4, 0}, FT::Center, false}, {2, {-1, 2, -2, -1}, FT::StableFocus, true}, {2, {1, 3, -3, 1}, FT::UnstableFocus, false}, {3, {-1, 0, 0, 0, -2, 0, 0, 0, 3}, FT::Saddle, false}, {3, {1, 2, 0, -2, 1, 0, 0, 0, -1}, FT::SaddleFocus, false}, {3, {-1, 2, 0, -2, -1, 0, 0, 0, -3}, FT::StableFocus, true}, {3, {0, 2, 0, -2, 0, 0, 0, 0, -1}, FT::Unknown, false}, {1, {-2}, FT::StableNode, true}, {1, {3}, FT::UnstableNode, false}};
CASEN(linearfixed, 0, 11, 11) { auto &S = SP[n]; int k = S.n; V c = vec(k, "c"), g = vec(k, "g"); g[0] = c[0] + sym::real("e", 0.5, 2); sym::obs("c", c[0]); Fake s(k, [&](double, const V &x, V &d) { for (int i = 0; i < k; i++) { d[i] = 0; for (int j = 0; j < k; j++) d[i] = d[i] + S.a[i * k + j] * (x[j] - c[j]); } }, [&](double, const V &, M &J) { for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) J(i, j) = S.a[i * k + j]; }); auto r = FixedPointFinder::Find(s, g, 1e-6, 5); for (int i = 0; i < k; i++) sym::eq(r.location[i], c[i], "Newton solves a linear system in one step"), sym::eq(r.jacobian(i, 0), S.a[i * k], "Jacobian at the fixed point"); sym::check(r.type == S.t && r.isStable == S.st, "type and stability"); sym::check(r.iterations >= 1 && r.convergenceResidual < 1e-6, "converged"); auto d = FindFixedPointDetailed(s, g, 1e-6, 1); sym::check(d.IsSuccess() && d.fixed_point.type == S.t && d.fixed_point.isStable == S.st, "found by the last iteration"); auto e = FindFixedPointDetailed(s, g, 1e-6, 0); sym::check(!e.IsSuccess() && e.status == AlgorithmStatus::MaxIterationsExceeded && e.fixed_point.type == FT::Unknown && !e.fixed_point.isStable, "not found without iterations"); auto all = FixedPointFinder::FindMultiple(s, {g, c, g * 2.0}, 1e-6, 1e-3); sym::check(all.size() == 1, "the same point is listed once"); }
CASE(singularfixed) { double c = sym::real("c", 0.5, 2), x0 = sym::real("x", -2, 2); sym::obs("c", c); Fake s(2, [&](double, const V &x, V &d) { d[0] = x[0] + x[1] - c; d[1] = x[0] + x[1] + c; }, [&](double, const V &, M &J) { J(0, 0) = J(0, 1) = J(1, 0) = J(1, 1) = 1; }); V g{x0, 1}; auto r = FixedPointFinder::Find(s, g); V f(2); s.derivs(0, r.location, f); sym::eq(r.convergenceResidual * r.convergenceResidual, f[0] * f[0] + f[1] * f[1], "the residual is the one at the reported point"); sym::check(r.type == FT::Unknown && !r.isStable && !FindFixedPointDetailed(s, g).IsSuccess(), "singular Jacobians are reported"); }
// singular only at the second point
CASE(singularlater) { double c = sym::real("c", 0.5, 2); sym::obs("c", c); Fake s(1, [&](double, const V &x, V &d) { d[0] = (x[0] - 1) * (x[0] - 1) * (x[0] - 1) + c * (x[0] > 0 ? 1.0 : 3.0); }, [&](double, const V &x, M &J) { J(0, 0) = x[0] < 0 ? -(1 + 3 * c - 2) : 0.0; }); V g{-1}; Fake t(1, [&](double, const V &x, V &d) { d[0] = x[0] < 0 ? c : -c; }, [&](double, const V &x, M &J) { J(0, 0) = x[0] < 0 ? -c / 3 : 0.0; }); auto r = FixedPointFinder::Find(t, g, 1e-10, 4); sym::eq(r.location[0], 2, "the point reached"); sym::eq(r.convergenceResidual, c, "with its residual"); sym::check(r.iterations == 1 && r.type == FT::Unknown && !r.isStable, "after one step"); }
CASE(newton) { double c = sym::real("c", 0.25, 4), x = sym::real("x", 0.5, 3), tol = 1e-3; sym::assume(std::fabs(x * x - c) > 0.5); sym::obs("c", c); Fake s(1, [&](double, const V &y, V &d) { d[0] = y[0] * y[0] - c; }, [&](double, const V &y, M &J) { J(0, 0) = 2 * y[0]; }); V g{x}; auto r = FixedPointFinder::Find(s, g, tol, 2); double a = (x + c / x) / 2, b = (a + c / a) / 2; sym::check(r.iterations == 1 || r.iterations == 2, "iterations"); double e = r.iterations == 1 ? a : b; sym::eq(r.location[0], e, "Newton's iterates"); double f = std::fabs(e * e - c); sym::eq(r.convergenceResidual, f, "residual"); if (r.convergenceResidual < tol) sym::check(r.type == FT::UnstableNode && !r.isStable, "classified"); else sym::check(r.type == FT::Unknown && !r.isStable, "unclassified"); }
CASE(box) { double lo0 = sym::real("l", -2, -1), hi0 = sym::real("h", 1, 2), lo1 = sym::real("l", -2, -1), hi1 = sym::real("h", 1, 2); sym::obs("l", lo0); int gp = sym::pick(1, 3, "grid"); std::vector<std::array<double, 2>> seen; Fake s(2, [&](double, const V &x, V &d) { seen.push_back({x[0], x[1]}); d[0] = d[1] = 0; }, [&](double, const V &, M &J) { J(0, 0) = J(1, 1) = -1; J(0, 1) = J(1, 0) = 0; }); DynamicalSystemAnalyzer<Real> A(s); auto fps = A.FindFixedPointsInBox(V{lo0, lo1}, V{hi0, hi1}, gp); sym::check((int)seen.size() == gp * gp, "every grid point is tried"); for (int i = 0; i < gp * gp; i++) { double u = gp > 1 ? (double)(i % gp) / (gp - 1) : 0.5, v = gp > 1 ? (double)(i / gp) / (gp - 1) : 0.5; sym::eq(seen[i][0], lo0 + u * (hi0 - lo0), "grid point"); sym::eq(seen[i][1], lo1 + v * (hi1 - lo1), "grid point"); } sym::check((int)fps.size() == gp * gp, "all distinct points are reported"); }
// Lyapunov exponents
static double rk(double z) { return 1 + z + z * z / 2 + z * z * z / 6 + z * z * z * z / 24; }
CASEN(lyaplinear, 0, 4, 4) { static const double D[5][3] = {{0.5, -1, -2}, {-0.25, 0.75, 0.125}, {1, 0.5, 0.25}, {0, -1, -2}, {0, -1, 0}}; auto d = D[n]; double h = 0.25; int k = 4; V x = vec(3); sym::obs("x", x[0]); double u = sym::real("u", -2, 2); Fake s(3, [&](double, const V &y, V &o) { o[0] = d[0] * y[0] + u * y[1]; o[1] = d[1] * y[1] + u * y[2]; o[2] = d[2] * y[2]; }, [&](double, const V &, M &J) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J(i, j) = i == j ? d[i] : j == i + 1 ? u : 0.0; }); auto r = LyapunovAnalyzer::Compute(s, x, 1.0, 0.5, h); double e[3]; for (int i = 0; i < 3; i++) e[i] = std::log(rk(d[i] * h)) * k; std::sort(e, e + 3, std::greater<double>()); double sum = 0; for (int i = 0; i < 3; i++) { sym::eq(r.exponents[i], e[i], "exponents of a triangular system, in descending order"); sum = sum + e[i]; } sym::eq(r.sum, sum, "sum"); sym::eq(r.maxExponent, e[0], "largest"); sym::check(r.isChaotic == (e[0] > 1e-6) && r.numOrthonormalizations == 2, "chaos flag"); double ky = e[0] < 0 ? 0 : e[0] + e[1] < 0 ? 1 + e[0] / -e[1] : sum < 0 ? 2 + (e[0] + e[1]) / -e[2] : 3; sym::eq(r.kaplanYorkeDimension, ky, "Kaplan-Yorke dimension"); sym::eq(r.totalTime, 1, "time"); }
// the stretching is the derivative of the Runge-Kutta step itself
CASEN(lyapstep, 1, 1, 1) { double a = sym::real("a", -1, 1), b = sym::real("b", -0.5, 0.5), x = sym::real("x", -1, 1), h = 0.25; sym::obs("x", x); Fake s(1, [&](double t, const V &y, V &o) { o[0] = a * y[0] + b * y[0] * y[0] + t; }, [&](double, const V &y, M &J) { J(0, 0) = a + 2 * b * y[0]; }); auto r = LyapunovAnalyzer::Compute(s, V{x}, n * h, h, h); double sum = 0, y = x; auto f = [&](double t, double v) { return a * v + b * v * v + t; }; auto df = [&](double v) { return a + 2 * b * v; }; for (int i = 0; i < n; i++) { double t = i * h, k1 = f(t, y), e1 = df(y), y2 = y + h / 2 * k1, k2 = f(t + h / 2, y2), e2 = df(y2) * (1 + h / 2 * e1), y3 = y + h / 2 * k2, k3 = f(t + h / 2, y3), e3 = df(y3) * (1 + h / 2 * e2), y4 = y + h * k3, k4 = f(t + h, y4), e4 = df(y4) * (1 + h * e3), D = 1 + h / 6 * (e1 + 2 * e2 + 2 * e3 + e4); double q = std::sqrt(D * D); sum = sum + std::log(q); y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4); } sym::eq(r.exponents[0] * (n * h), sum, "logarithm of the derivative of the flow"); }
CASEN(lyaptime, 1, 2, 3) { double a = sym::real("a", -1, 1), b = sym::real("b", -0.5, 0.5), x = sym::real("x", -1, 1), h = 0.25; sym::obs("x", x); auto c = [&](double t) { return a + b * t; }; Fake s(1, [&](double t, const V &y, V &o) { o[0] = c(t) * y[0] + t; }, [&](double t, const V &, M &J) { J(0, 0) = c(t); }); auto r = LyapunovAnalyzer::Compute(s, V{x}, n * h, h, h); double sum = 0; for (int i = 0; i < n; i++) { double t = i * h, e1 = c(t), e2 = c(t + h / 2) * (1 + h / 2 * e1), e3 = c(t + h / 2) * (1 + h / 2 * e2), e4 = c(t + h) * (1 + h * e3), D = 1 + h / 6 * (e1 + 2 * e2 + 2 * e3 + e4), q = std::sqrt(D * D); sum = sum + std::log(q); } sym::eq(r.exponents[0] * (n * h), sum, "logarithm of the derivative of the flow"); sym::check(r.numOrthonormalizations == n, "steps"); }
// sweeps, sections and trajectories on arbitrary slopes: the state after k steps is the sum of the first k slopes
struct Slopes { std::vector<double> s; double h, t0; int used = 0; Slopes(int n, double h_, double t, double lo = -2, double hi = 2) : h(h_), t0(t) { for (int i = 0; i < n; i++) s.push_back(sym::real("s", lo, hi)); } };
CASEN(section, 2, 4, 5) { double h = 100, c = sym::real("c", -1, 1); int dir = sym::pick(-1, 1, "direction"); sym::obs("c", c); std::vector<double> y{sym::real("y", -2, 2)}, w; for (int i = 1; i <= n; i++) y.push_back(sym::real("y", -2, 2)); int call = 0; Fake q(2, [&](double, const V &, V &d) { int st = call++ / 4; if (st == 0) { d[0] = d[1] = 0; return; } if (st > n) throw Fake::Cap(); d[0] = (y[st] - y[st - 1]) / h; d[1] = 1 / h; }); 
  std::vector<std::array<double, 2>> want; for (int i = 1; i <= n; i++) { double a = y[i - 1] - c, b = y[i] - c; bool up = (a < 0) & (b >= 0), dn = (a >= 0) & (b < 0); if (dir > 0 ? up : dir < 0 ? dn : (up || dn)) want.push_back({c, i - 1 + a / (a - b)}); } int m = want.size(); for (int k = 1; k <= m + 1; k++) { call = 0; try { auto r = PhaseSpaceAnalyzer::ComputePoincareSection(q, V{y[0], 0}, PoincareSection<Real>(0, c, dir), k, h); sym::check(k <= m && (int)r.size() == k, "no invented crossings"); for (int i = 0; i < k && i < m; i++) sym::eq(r[i][0], c, "on the section"), sym::eq(r[i][1], want[i][1], "at the interpolated crossing"); } catch (const Fake::Cap &) { sym::check(k > m, "no missed crossings"); } } }
CASEN(trajectory, 1, 5, 8) { static const int EV[] = {0, 1, 2, 3, 1, 2, 2, 3, 1}; double h = 0.25, out = EV[n] * h; int steps = n; std::vector<double> s; for (int i = 0; i < steps; i++) s.push_back(sym::real("s", -2, 2)); double x = sym::real("x", -2, 2); sym::obs("x", x); int call = 0; Fake q(1, [&](double t, const V &, V &d) { int i = call++ / 4; if (i >= steps) throw Fake::Cap(); sym::check(t >= i * h && t <= (i + 1) * h, "time of the slope"); d[0] = s[i]; }); auto r = PhaseSpaceAnalyzer::IntegrateTrajectory(q, V{x}, steps * h, out, h); int m = steps / EV[n]; sym::check((int)r.size() == m + 1, "one point for every output time"); double y = x; for (int i = 0, k = 0; i <= steps; i++) { if (i % EV[n] == 0 && k < (int)r.size()) sym::eq(r[k++][0], y, "state at the output time"); if (i < steps) y = y + h * s[i]; } call = 0; auto d = IntegrateTrajectoryDetailed(q, V{x}, steps * h, out, h); sym::check(d.IsSuccess() && d.points.size() == r.size() && d.function_evaluations == (int)r.size(), "detailed"); }
// a sweep continues from state to state, lists the strict local maxima of the recorded component and restores the parameter
CASEN(sweep, 1, 2, 3) { double lo = sym::real("lo", -2, 0), hi = sym::real("hi", 1, 2), x = sym::real("x", -2, 2), old = sym::real("old", 3, 4), h = 0.25; sym::obs("x", x); const int R = 3; std::vector<double> s; for (int i = 0; i < n * (R + 1); i++) s.push_back(sym::real("s", -2, 2)); int call = 0; std::vector<double> pars; Fake q(2, [&](double, const V &, V &d) { int i = call++ / 4; if (i >= (int)s.size()) throw Fake::Cap(); d[1] = s[i]; d[0] = q.p * 0; pars.push_back(q.p); }); q.p = old; auto r = BifurcationAnalyzer::Sweep(q, 0, lo, hi, n, V{0.5, x}, 1, h, R * h, h); sym::check((int)r.parameterValues.size() == n && (int)r.attractorValues.size() == n, "one entry per step"); sym::eq(q.p, old, "the parameter is restored"); double y = x; for (int k = 0; k < n; k++) { double p = n > 1 ? lo + k * (hi - lo) / (n - 1) : lo; sym::eq(r.parameterValues[k], p, "parameter values"); sym::eq(pars[k * 4 * (R + 1)], p, "the system runs with that parameter"); double v[R + 1]; y = y + h * s[k * (R + 1)]; v[0] = y; for (int i = 1; i <= R; i++) v[i] = y = y + h * s[k * (R + 1) + i]; std::vector<double> mx; for (int i = 1; i < R; i++) if (s[k * (R + 1) + i] > 0 && s[k * (R + 1) + i + 1] < 0) mx.push_back(v[i]); sym::check(r.attractorValues[k].size() == mx.size(), "number of maxima"); for (size_t i = 0; i < mx.size() && i < r.attractorValues[k].size(); i++) sym::eq(r.attractorValues[k][i], mx[i], "maxima"); } }
CASE(failures) { double x = sym::real("x", -2, 2); sym::obs("x", x); Fake q(1, [&](double, const V &, V &) { throw std::runtime_error("no"); }); DynSysConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; sym::check(!IntegrateTrajectoryDetailed(q, V{x}, 1, 0.5, 0.5, c).IsSuccess() && !FindFixedPointDetailed(q, V{x}, 1e-9, 3, c).IsSuccess() && !ComputeLyapunovDetailed(q, V{x}, 1, 0.5, 0.5, c).IsSuccess() && !ComputePoincareSectionDetailed(q, V{x}, PoincareSection<Real>(), 1, 50, c).IsSuccess() && !SweepBifurcationDetailed(q, 0, 0, 1, 2, V{x}, 0, 0.5, 0.5, 0.5, c).IsSuccess(), "failures are reported"); sym::check(THROWS(std::runtime_error, IntegrateTrajectoryDetailed(q, V{x}, 1, 0.5, 0.5)), "or propagated"); }
// discrete maps
template <int N> static void mj(const IDiscreteMap<N> &m, const V &x) { M J; m.jacobian(x, J); for (int k = 0; k < N; k++) { const double h = 0.125; V a = x, b = x; a[k] = x[k] + h; b[k] = x[k] - h; V p = m.iterate(a), q = m.iterate(b); for (int i = 0; i < N; i++) sym::eq(J(i, k), (p[i] - q[i]) / (2 * h), "Jacobian"); } }
CASE(logistic) { double r = sym::real("r", -4, 4), x = sym::real("x", -2, 2); sym::obs("x", x); LogisticMap m(r); V v{x}; sym::eq(m.iterate(v)[0], r * x * (1 - x), "map"); mj<1>(m, v); auto o = m.orbit(v, 3); sym::check(o.size() == 3, "orbit length"); double y = x; for (int i = 0; i < 3; i++) { y = r * y * (1 - y); sym::eq(o[i][0] * (1.0 / 64), y * (1.0 / 64), "orbit"); } double s = sym::real("s", -4, 4); m.setParam(0, s); sym::eq(m.getParam(0), s, "parameter"); sym::eq(LogisticMap(4).analyticalLyapunov(), std::log(2), "exponent"); }
CASE(henon) { double a = sym::real("a", -2, 2), b = sym::real("b", -2, 2); V x = vec(2); sym::obs("x", x[0]); HenonMap m(a, b); V y = m.iterate(x); sym::eq(y[0], 1 - a * x[0] * x[0] + x[1], "map"); sym::eq(y[1], b * x[0], "map"); mj<2>(m, x); M J; m.jacobian(x, J); sym::eq(m.jacobianDeterminant(), J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0), "determinant"); auto o = m.orbit(x, 2); V z = m.iterate(y); sym::check(o.size() == 2, "orbit"); sym::eq(o[0][0], y[0], "orbit"); sym::eq(o[1][0] * (1.0 / 64), z[0] * (1.0 / 64), "orbit"); sym::eq(o[1][1], z[1], "orbit"); m.setParam(0, b); m.setParam(1, a); sym::eq(m.getParam(0), b, "parameter"); sym::eq(m.getParam(1), a, "parameter"); sym::check(m.getParamName(0) != m.getParamName(1) && m.getStateName(0) != m.getStateName(1), "names"); }
CASE(standard) { double K = sym::real("K", -2, 2), p = sym::real("p", 0, 6.25), t = sym::real("t", 0, 6.25), P2 = 2 * Constants::PI; sym::obs("K", K); StandardMap m(K); V x{p, t}, y = m.iterate(x); double s = std::sin(t), a = p + K * s, b = t + a; auto wrapped = [&](double v, double full) { bool k = false; for (int i = -3; i <= 3; i++) k = k | (std::fabs(v + i * P2 - full) < 1e-6); return k; }; sym::check(wrapped(y[0], a) && wrapped(y[1], b), "map modulo 2 pi"); sym::check(y[0] >= -1e-9 && y[0] <= P2 + 1e-9 && y[1] >= -1e-9 && y[1] <= P2 + 1e-9, "wrapped into one period"); M J; m.jacobian(x, J); double c = K * std::cos(t); sym::eq(J(0, 0), 1, "Jacobian"); sym::eq(J(0, 1), c, "Jacobian"); sym::eq(J(1, 0), 1, "Jacobian"); sym::eq(J(1, 1), 1 + c, "Jacobian"); sym::eq(J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0), 1, "area is preserved"); }
CASE(tent) { double u = sym::real("u", 0.5, 4), x = sym::real("x", -2, 2); sym::assume(std::fabs(x - 0.5) > 0.2); sym::obs("x", x); TentMap m(u); V v{x}; double e = x < 0.5 ? u * x : u * (1 - x); sym::eq(m.iterate(v)[0], e, "map"); mj<1>(m, v); sym::eq(TentMap(2).analyticalLyapunov(), std::log(2), "exponent"); m.setParam(0, x); sym::eq(m.getParam(0), x, "parameter"); }
CASEN(maplyap, 1, 2, 3) { double r = n > 1 ? 3.5 : sym::real("r", 2, 4), x = sym::real("x", 0.0625, 0.375); sym::obs("x", x); LogisticMap m(r); auto g = DiscreteMapLyapunov<1>::Compute(m, V{x}, n, 1); double y = r * x * (1 - x), s = 0; for (int i = 0; i < n; i++) { double d = r * (1 - 2 * y), q = std::sqrt(d * d); if (q > 1e-3) s = s + std::log(q); else sym::assume(false); y = r * y * (1 - y); } sym::eq(g.exponents[0] * n, s, "mean logarithm of the slope"); sym::eq(g.maxExponent, g.exponents[0], "largest"); sym::check(g.isChaotic == (g.maxExponent > 0.01), "chaos flag"); }
struct Tri : IDiscreteMap<3> { double d[3], u; void map(const V &x, V &y) const override { y[0] = d[0] * x[0] + u * x[1] * x[1]; y[1] = d[1] * x[1] + u * x[2] * x[2]; y[2] = d[2] * x[2]; } void jacobian(const V &x, M &J) const override { J.Resize(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J(i, j) = i == j ? d[i] : j == i + 1 ? 2 * u * x[j] : 0.0; } Real getParam(int) const override { return u; } void setParam(int, Real v) override { u = v; } std::string getParamName(int) const override { return "u"; } std::string getStateName(int) const override { return "x"; } };
CASE(maptri) { Tri t; static const double D[] = {2, -0.5, 0.25}; for (int i = 0; i < 3; i++) t.d[i] = D[i]; t.u = sym::real("u", -2, 2); V x = vec(3); sym::obs("x", x[0]); auto g = DiscreteMapLyapunov<3>::Compute(t, x, 3, 1); for (int i = 0; i < 3; i++) sym::eq(g.exponents[i], std::log(std::fabs(D[i])), "exponents of a triangular map"); sym::check(g.isChaotic, "chaos flag"); }
