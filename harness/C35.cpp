// BOUNDS: every right-hand side and Jacobian (uninterpreted) for 1 equation and 1-2 Newton iterations per step, every linear system of 2 equations; 1-3 steps of every size with a shorter last one; Rosenbrock runs of up to 3 tries (thorough 4)
// OUTSIDE: rounding, not-a-number right-hand sides, accumulation of error over many steps, larger systems
#include "h.h"
#include <functional>
#include <vector>
#include "mml/base/ODESystemSolution.h"
#include "mml/algorithms/ODESolvers/ODESolverStiff.h"
typedef Vector<Real> V; typedef Matrix<Real> M;
struct Cap {};
struct Call { double t; V x; V f; };
struct Sys : IODESystemWithJacobian { int n, maxF = 1000, maxJ = 1000; std::function<void(Real, const V &, V &)> f; std::function<void(Real, const V &, M &)> g; mutable std::vector<Call> fc, jc; Sys(int d, std::function<void(Real, const V &, V &)> a, std::function<void(Real, const V &, M &)> b) : n(d), f(a), g(b) {} int getDim() const override { return n; }
  void derivs(const Real t, const V &x, V &o) const override { if ((int)fc.size() >= maxF) throw Cap(); f(t, x, o); fc.push_back({t, x, o}); } void jacobian(const Real t, const V &x, V &o, M &j) const override { if ((int)jc.size() >= maxJ) throw Cap(); o = fc.back().f; g(t, x, j); jc.push_back({t, x, o}); } };
static const double TOL = 1e-8;
static ODESystemSolution solve(int bdf, Sys &s, double t0, const V &y, double t1, double h, int it) { return bdf ? SolveBDF2(s, t0, y, t1, h, it, TOL) : SolveBackwardEuler(s, t0, y, t1, h, it, TOL); }
// the times: full steps of the requested size, the last one ends exactly at the end of the range
static void times(const ODESystemSolution &r, int n, double t0, double L, double h) { sym::check(r.size() == n + 1 && r.getNumStepsOK() == n && (int)r.getTValues().size() == n + 1, "one point per step"); if (r.size() != n + 1) throw Cap(); for (int i = 0; i < n; i++) sym::eq(r.getTValue(i), t0 + i * h, "the steps have the requested size", 1e-9); sym::eq(r.getTValue(n), t0 + L, "the last point is the end of the range", 1e-12); }
static void range(int n, double h, double &L) { L = sym::real("L", 0.01, 4); sym::assume((L > (n - 1) * h + 0.001) & (L <= n * h)); }
// the equation a step has to solve: backward Euler, or the two-step formula that is exact for parabolas through the last two states
static double resid(int bdf, int k, double h, double hp, const V &y, const V &f, int i, const std::vector<V> &p) { if (!bdf || k == 0) return y[i] - p[k][i] - h * f[i]; double w = h / hp, b = (1 + w) / (1 + 2 * w); return y[i] - p[k][i] - (p[k][i] - p[k - 1][i]) * (w * w / (1 + 2 * w)) - b * h * f[i]; }
// any right-hand side and any Jacobian: a returned step solves its equation, otherwise the solver says so
CASEN(any, 0, 5, 7) { int bdf = n % 2, N = n < 4 ? 1 + n / 2 : 2, it = n < 2 ? 3 : 2; double h = sym::real("h", 0.05, 1), L, t0 = sym::real("t0", -4, 4); range(N, h, L); V y{sym::real("y", -4, 4)}; sym::obs("h", h); Sys s(1, [](Real t, const V &x, V &o) { o[0] = sym::fn("f", t - 0, x[0], -8, 8); }, [](Real t, const V &x, M &j) { j(0, 0) = sym::fn("j", t, x[0], -0.5, 0.5); }); if (n >= 4) L = h * N;
  std::optional<ODESystemSolution> r; bool failed = false; try { r = solve(bdf, s, t0, y, t0 + L, h, it); } catch (std::runtime_error &) { failed = true; } sym::check(s.fc.size() == s.jc.size(), "one Jacobian per iteration");
  if (failed) { sym::reach("no convergence"); sym::check((int)s.fc.size() >= it && (int)s.fc.size() <= it * N, "it gives up after the allowed iterations"); return; } sym::reach("converged"); times(*r, N, t0, L, h); std::vector<V> p; for (int k = 0; k <= N; k++) p.push_back(V{r->getXValue(k, 0)}); sym::eq(p[0][0], y[0], "the first point is the start state");
  size_t q = 0; for (int k = 0; k < N; k++) { double t = k == N - 1 ? t0 + L : t0 + h * (k + 1), hk = k == N - 1 ? L - (N - 1) * h : h; size_t b = q; while (q < s.fc.size() && std::abs(s.fc[q].t - t) < 1e-9) q++; sym::check(q > b && q - b <= (size_t)it, "every step takes at most the allowed iterations"); if (q == b) return; const Call &c = s.fc[q - 1]; sym::eq(c.x[0], p[k + 1][0], "the last guess is the returned state"); double e = resid(bdf, k, hk, h, p[k + 1], c.f, 0, p); sym::check((e < TOL * 1.001) & (e > -TOL * 1.001), "the returned state solves the equation of the step"); } sym::check(q == s.fc.size(), "no other evaluations"); }
// Newton's iteration with the Jacobian at the current guess, from the documented starting guess
CASEN(newton, 0, 2, 2) { int bdf = n > 0, two = n == 2; double h = sym::real("h", 0.05, 1), t0 = sym::real("t0", -4, 4); V y{sym::real("y", -4, 4)}; std::vector<double> F, J; for (int i = 0; i < 4; i++) F.push_back(sym::real("f", i, -8, 8)), J.push_back(sym::real("j", i, -0.5, 0.5)); sym::obs("h", h); int c = 0, phase = two ? 0 : 1, base = 0;
  Sys s(1, [&](Real t, const V &x, V &o) { if (two && c < 2) { o[0] = c == 0 ? F[0] : (x[0] - y[0]) / h; return; } o[0] = F[std::min(3, c)]; }, [&](Real, const V &, M &j) { j(0, 0) = J[std::min(3, c)]; c++; }); s.maxF = two ? 4 : 3; (void)phase; (void)base;
  try { solve(bdf, s, t0, y, t0 + (two ? 2 : 1) * h, h, 5); } catch (Cap &) {} catch (std::runtime_error &) { sym::check(false, "no failure before the limit"); } int b = two ? 2 : 0; if ((int)s.fc.size() < b + 2) { sym::reach("converged"); return; } sym::reach("iterated"); std::vector<V> p{y}; if (two) p.push_back(s.fc[1].x); double start = two ? 2 * p[1][0] - y[0] : y[0]; sym::eq(s.fc[b].x[0], start, "the starting guess");
  for (int k = b; k + 1 < (int)s.fc.size(); k++) { sym::eq(s.fc[k].t, t0 + h * (two + 1), "the right-hand side is taken at the end of the step"); sym::eq(s.jc[k].t, t0 + h * (two + 1), "the Jacobian is taken at the end of the step"); sym::eq(s.jc[k].x[0], s.fc[k].x[0], "the Jacobian is taken at the current guess"); double be = two ? 2. / 3 : 1, r = resid(bdf, two, h, h, s.fc[k].x, V{F[k]}, 0, p); sym::eq((1 - be * h * J[k]) * (s.fc[k + 1].x[0] - s.fc[k].x[0]), -r, "the Newton step"); } }
// coupled linear systems are solved exactly, and the steps have their order
CASEN(linear, 0, 5, 7) { int bdf = n % 2, N = 1 + n / 2; double h = n < 2 ? sym::real("h", 0.05, 0.5) : 0.25, L = (N - 0.25) * h, t0 = n < 2 ? sym::real("t0", -4, 4) : 0.5, a = n < 2 ? sym::real("a", -4, 0) : -1.5, q = n < 2 ? sym::real("q", -4, 4) : 2; if (n < 2) range(N, h, L); V y = sVec("y", 2, -4, 4); sym::obs("h", h); Sys s(2, [&](Real t, const V &x, V &o) { o[0] = a * x[0] + x[1] + q * t; o[1] = -x[0] + a * x[1]; }, [&](Real, const V &, M &j) { j(0, 0) = a; j(0, 1) = 1; j(1, 0) = -1; j(1, 1) = a; });
  auto r = solve(bdf, s, t0, y, t0 + L, h, 3); times(r, N, t0, L, h); std::vector<V> p; for (int k = 0; k <= N; k++) p.push_back(V{r.getXValue(k, 0), r.getXValue(k, 1)}); for (int k = 0; k < N; k++) { V f(2); double hk = k == N - 1 ? L - (N - 1) * h : h; s.f(k == N - 1 ? t0 + L : t0 + h * (k + 1), p[k + 1], f); for (int i = 0; i < 2; i++) { double e = resid(bdf, k, hk, h, p[k + 1], f, i, p); sym::check((e < 1.001 * TOL) & (e > -1.001 * TOL), "the step solves its equation"); } } }
// with exact starting values the two-step formula is exact for parabolas
CASEN(order, 2, 3, 5) { double h = sym::real("h", 0.05, 0.5), L, c = sym::real("c", -4, 4), d = sym::real("d", -4, 4); range(n, h, L); sym::obs("h", h); Sys s(1, [&](Real t, const V &, V &o) { o[0] = std::abs(t - h) < 1e-9 ? c + d * h : c + 2 * d * t; }, [&](Real, const V &, M &j) { j(0, 0) = 0; }); auto r = SolveBDF2(s, 0, V{0.}, L, h, 3, 1e-12); times(r, n, 0, L, h); for (int k = 1; k <= n; k++) { double t = k == n ? L : k * h; sym::eq(r.getXValue(k, 0), c * t + d * t * t, "parabolas are followed exactly"); } }
CASE(refused) { double h = sym::real("h", 0.05, 1), L = sym::real("L", 0.01, 4), t0 = sym::real("t0", -4, 4); V y{1.}; Sys s(1, [](Real, const V &x, V &o) { o[0] = x[0]; }, [](Real, const V &, M &j) { j(0, 0) = 1; }); for (int m = 0; m < 2; m++) { sym::check(THROWS(ODESolverError, solve(m, s, t0, y, t0 - L, h, 3)), "a reversed range is refused"); sym::check(THROWS(ODESolverError, solve(m, s, t0, y, t0 + L, -h, 3)), "a negative step is refused"); sym::check(THROWS(ODESolverError, solve(m, s, t0, y, t0 + L, 0, 3)), "a zero step is refused"); auto r = solve(m, s, t0, y, t0, h, 3); sym::check(r.size() == 1, "an empty range has one point"); } Rosenbrock23Solver q(s); sym::check(THROWS(ODESolverError, q.Solve(t0, y, t0 - L, h)), "a reversed range is refused"); sym::check(THROWS(ODESolverError, q.Solve(t0, y, t0 + L, -h)), "a negative step is refused"); }
// Rosenbrock: one step for any right-hand side and Jacobian, its order and its stability function
static const double G = 1 + 0.70710678118654752;
CASEN(ros, 0, 1, 1) { int d = n + 1; double h = sym::real("h", 0.05, 1), t0 = sym::real("t0", -4, 4); V y = sVec("y", d, -4, 4), f1 = sVec("f", d, -8, 8), f2 = sVec("g", d, -8, 8), o(d), e(d); M J = sMat("J", d, d, -0.25, 0.25); sym::obs("h", h); int c = 0; Sys s(d, [&](Real, const V &, V &r) { r = c < 1 ? f1 : f2; c++; }, [&](Real, const V &, M &j) { j = J; }); Rosenbrock23Solver q(s); sym::check(q.Step(t0, y, h, o, e), "the step succeeds"); sym::check(s.jc.size() == 1 && s.fc.size() == 2, "one Jacobian, two evaluations"); V k1 = s.fc[1].x - y; sym::eq(s.fc[0].t, t0, "first stage"); eqV(s.fc[0].x, y, d, "first stage"); sym::eq(s.fc[1].t, t0 + h, "second stage"); sym::eq(s.jc[0].t, t0, "Jacobian at the start of the step"); eqV(s.jc[0].x, y, d, "Jacobian at the start of the step");
  V k2(d); for (int i = 0; i < d; i++) k2[i] = 2 * (o[i] - y[i]) - 3 * k1[i]; for (int i = 0; i < d; i++) { double a = k1[i], b = k2[i]; for (int j = 0; j < d; j++) a = a - G * h * J(i, j) * k1[j], b = b - G * h * J(i, j) * k2[j]; sym::eq(a, h * f1[i], "first stage equation"); sym::eq(b, h * f2[i] - 2 * k1[i], "second stage equation"); sym::eq(e[i], (k1[i] + k2[i]) / 2, "the error estimate is the difference to the first stage"); } }
CASE(stability) { double l = sym::real("l", -64, 0.25), h = sym::real("h", 0.05, 1), y0 = sym::real("y", -4, 4), z = h * l; sym::obs("z", z); Sys s(1, [&](Real, const V &x, V &o) { o[0] = l * x[0]; }, [&](Real, const V &, M &j) { j(0, 0) = l; }); Rosenbrock23Solver q(s); V o(1), e(1); q.Step(0, V{y0}, h, o, e); sym::eq(o[0] * (1 - G * z) * (1 - G * z), y0 * (1 + (1 - 2 * G) * z), "the stability function of the method", 1e-6); sym::check((z > 0) | (std::abs(o[0]) <= std::abs(y0) + 1e-9), "decaying solutions never grow"); }
// adaptive run: accepted steps meet the tolerance, all limits are kept, all counts are true
CASEN(adaptive, 0, 5, 7) { int tries = n < 6 ? 2 : 3; double t0 = 0.5, L = sym::real("L", 0.5, 2), h0 = n % 3 ? 0.5 : 0.3, y0 = sym::real("y", 2, 3), tol = 0.01; sym::obs("L", L); int c = 0; Sys s(1, [&](Real, const V &, V &o) { static const double D[] = {0, 0.0625, 0.75, 8}; o[0] = c % 2 ? 1 + D[sym::pick(0, 3, "change")] : 1; c++; }, [&](Real, const V &, M &j) { j(0, 0) = 0; }); s.maxF = 2 * tries; StiffSolverConfig g; g.tolerance = tol; g.step_size = h0; g.min_step_size = n % 2 ? 0.05 : 1e-12; g.max_step_size = n / 2 % 2 ? 0.25 : 8; Rosenbrock23Solver q(s, tol, tol); StiffSolverResult r(0, 1, 1, 0); bool done = false; try { r = q.Solve(V{y0}, t0, t0 + L, g); done = true; } catch (Cap &) {}
  double t = t0, y = y0; int acc = 0, rej = 0, T = s.fc.size() / 2; for (int i = 0; i < T; i++) { double h = s.fc[2 * i + 1].t - s.fc[2 * i].t, k1 = s.fc[2 * i + 1].x[0] - y, f2 = s.fc[2 * i + 1].f[0]; sym::eq(s.fc[2 * i].t, t, "a try starts at the last accepted time"); sym::eq(s.fc[2 * i].x[0], y, "a try starts at the last accepted state"); sym::eq(k1, h * s.fc[2 * i].f[0], "first stage"); sym::check((h > 0) & (t + h <= t0 + L + 1e-12), "a try stays inside the range"); sym::check((h <= g.max_step_size * 1.0101), "the maximum step is kept"); double k2 = h * f2 - 2 * k1, yn = y + 1.5 * k1 + 0.5 * k2, err = std::abs(k1 + k2) / 2, sc = tol + tol * yn; sym::assume((err < 0.999 * sc) | (err > 1.001 * sc)); if (err < sc) { acc++; t = t + h; y = yn; } else rej++; if (i + 1 < T) { double h2 = s.fc[2 * i + 3].t - s.fc[2 * i + 2].t; bool last = h2 + t >= t0 + L - 1e-9; if (err >= sc) sym::check((h2 < h) & (h2 >= 0.19999 * h), "a rejected try is followed by a smaller one"); else sym::check((h2 <= 5.06 * h) & (last | (h2 >= 0.1999 * h)), "the step size changes by a bounded factor"); } }
  if (!done) { sym::reach("longer"); return; } sym::check(r.algorithm_name == "Rosenbrock23", "name"); sym::check(r.function_evaluations == (int)s.fc.size() && r.jacobian_evaluations == (int)s.jc.size(), "all evaluations are counted"); if (r.status != AlgorithmStatus::Success) { sym::reach("gave up"); sym::check(n % 2 == 1, "gives up only below the minimum step"); return; } sym::reach("finished"); auto &S = r.solution; sym::check(S.size() == acc + 1 && r.total_steps == acc && S.getNumStepsOK() == acc && S.getNumStepsBad() == rej, "steps and rejections are counted"); if (S.size() != acc + 1) return; sym::eq(S.getTValue(acc), t0 + L, "the run ends at the end of the range"); sym::eq(S.getXValue(acc, 0), y, "the last state"); sym::eq(S.getTValue(0), t0, "the first point"); }
CASEN(limit, 1, 3, 3) { double t0 = sym::real("t0", -4, 4), L = sym::real("L", 3.1, 4); Sys s(1, [](Real, const V &, V &o) { o[0] = 1; }, [](Real, const V &, M &j) { j(0, 0) = 0; }); StiffSolverConfig g; g.step_size = 1; g.max_step_size = 1; g.max_steps = n; Rosenbrock23Solver q(s); auto r = q.Solve(V{0.}, t0, t0 + L, g); sym::check(r.status != AlgorithmStatus::Success && !r.error_message.empty(), "too many steps are reported"); sym::check((int)s.fc.size() == 2 * n, "the step limit is kept"); g.max_steps = 4; auto u = q.Solve(V{0.}, t0, t0 + L, g); sym::check(u.status == AlgorithmStatus::Success && u.total_steps == 4, "exactly the allowed number of steps suffices"); }
CASEN(config, 0, 1, 1) { double l = sym::real("l", -4, -0.5), y = sym::real("y", 1, 4); StiffSolverConfig g; g.step_size = 0.5; Sys s(1, [&](Real, const V &x, V &o) { o[0] = l * x[0]; }, [&](Real, const V &, M &j) { j(0, 0) = l; }); auto r = n ? SolveBDF2(s, 0, V{y}, 1, g) : SolveBackwardEuler(s, 0, V{y}, 1, g); sym::check(r.status == AlgorithmStatus::Success && r.algorithm_name == (n ? "BDF2" : "BackwardEuler") && r.total_steps == 2, "diagnostics"); sym::check(r.newton_iterations == (int)s.jc.size() && r.jacobian_evaluations == (int)s.jc.size() && r.function_evaluations == (int)s.fc.size() && s.jc.size() > 0, "evaluations"); auto d = solve(n, s, 0, V{y}, 1, 0.5, 10); for (int i = 0; i < 3; i++) sym::eq(d.getXValue(i, 0), r.solution.getXValue(i, 0), "the configured solver is the direct one");
  ODEStiffConfig c; c.solver = g; auto e = n ? SolveBDF2Detailed(s, 0, V{y}, 1, c) : SolveBackwardEulerDetailed(s, 0, V{y}, 1, c); sym::check(e.status == AlgorithmStatus::Success && e.solution && e.total_steps == 2 && e.newton_iterations == r.newton_iterations && e.jacobian_evaluations == r.jacobian_evaluations && e.function_evaluations == r.function_evaluations, "detailed result"); if (e.solution) sym::eq(e.solution->getXValue(2, 0), d.getXValue(2, 0), "detailed solution"); g.max_newton_iter = 1; auto f = n ? SolveBDF2(s, 0, V{y}, 1, g) : SolveBackwardEuler(s, 0, V{y}, 1, g); sym::check(f.status != AlgorithmStatus::Success && !f.error_message.empty() && f.total_steps == 0, "failure is reported"); }
