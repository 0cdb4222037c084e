// BOUNDS: every step size, start time and shift of the start values; order conditions of every rooted tree up to order 8 (200 trees), which decide the order of a Runge-Kutta step for every smooth system; every force field (uninterpreted) for Verlet and leapfrog; fixed-step solver with any one-step method, 1-4 steps, 2 components; solution storage up to 12 points
// OUTSIDE: rounding, accumulation of error over many steps, odd dimensions for Verlet and leapfrog, parametric curves at parameters between the nodes
#include "h.h"
#include <functional>
#include <vector>
#include "mml/base/Function.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/base/DAESystem.h"
#include "mml/algorithms/ODESolvers/ODEStepCalculators.h"
#include "mml/algorithms/ODESolvers/ODESolverFixedStep.h"
typedef Vector<Real> V;
static void eqV(const V &a, const V &b, const char *l) { sym::check(a.size() == b.size(), l); eqV(a, b, b.size(), l); }
struct Sys : IODESystem { int n; std::function<void(Real, const V &, V &)> f; mutable std::vector<double> t; mutable std::vector<V> x; Sys(int d, std::function<void(Real, const V &, V &)> g) : n(d), f(g) {} int getDim() const override { return n; } void derivs(Real a, const V &b, V &d) const override { t.push_back(a); x.push_back(b); f(a, b, d); } };
// rooted trees: dy_tree/dt is the product of the children, so that after one step from 0 every tree holds h^order * (its elementary weight)
struct Tree { std::vector<int> kids; int order; double gamma; };
static std::vector<Tree> trees(int p) { std::vector<Tree> r; std::vector<int> pick; for (int o = 1; o <= p; o++) { std::vector<Tree> add; std::function<void(int, int)> go = [&](int left, int max) { if (left == 0) { double g = o; for (int k : pick) g *= r[k].gamma; add.push_back({pick, o, g}); return; } for (int k = max; k >= 0; k--) if (r[k].order <= left) { pick.push_back(k); go(left - r[k].order, k); pick.pop_back(); } }; go(o - 1, (int)r.size() - 1); for (auto &t : add) r.push_back(t); } return r; }
struct Method { const IODESystemStepCalculator *c; int order, err; };
static Method method(int n) { switch (n) { case 0: return {&StepCalculators::EulerStepCalc, 1, 0}; case 1: return {&StepCalculators::EulerCromerStepCalc, 2, 1}; case 2: return {&StepCalculators::MidpointStepCalc, 2, 0}; case 3: return {&StepCalculators::RK4_Basic, 4, 0}; case 4: return {&StepCalculators::RK5_CashKarp, 5, 4}; case 5: return {&StepCalculators::DormandPrince5StepCalc, 5, 4}; default: return {&StepCalculators::DormandPrince8StepCalc, 8, 7}; } }
CASEN(order, 0, 6, 6) { Method m = method(n); auto T = trees(m.order + (m.err ? 1 : 0)); if (m.order == 8) T = trees(8); int d = T.size(); double c = sym::real("c", -4, 4), t0 = sym::real("t0", -4, 4), h = sym::real("h", -1, 1); sym::assume((h > 0.125) | (h < -0.125)); sym::obs("h", h);
  Sys s(d, [&](Real, const V &x, V &o) { for (int i = 0; i < d; i++) { double q = 1; for (int k : T[i].kids) q = q * (x[k] - c * (k % 3 + 1)); o[i] = q; } }); V x(d), k(d), y(d), e(d); for (int i = 0; i < d; i++) x[i] = c * (i % 3 + 1); s.derivs(t0, x, k); m.c->calcStep(s, t0, x, k, h, y, e);
  double hp[10] = {1}; for (int i = 1; i < 10; i++) hp[i] = hp[i - 1] * h; bool errUsed = false; for (int i = 0; i < d; i++) { int o = T[i].order; double w = y[i] - x[i]; if (o <= m.order) sym::eq(w, hp[o] / T[i].gamma, "order condition", 1e-9); if (m.err && o <= m.err) sym::eq(e[i], 0, "the error estimate starts one order below the step", 1e-9); if (!m.err) sym::eq(e[i], 0, "no error estimate"); if (m.err && o == m.err + 1 && !errUsed) { double r = e[i] / hp[o]; errUsed = r > 1e-5 || r < -1e-5; } }
  if (m.err) sym::check(errUsed, "the error estimate is not identically zero"); for (size_t j = 0; j < s.t.size(); j++) sym::eq(s.t[j] - t0, s.x[j][0] - x[0], "every stage is evaluated at its own time", 1e-9); for (int i = 0; i < d; i++) sym::eq(x[i], c * (i % 3 + 1), "the start state is not changed"); }
// the start derivative is the one the caller supplies and the step does not depend on old contents of the output
CASEN(pure, 0, 8, 8) { const IODESystemStepCalculator *c = n < 7 ? method(n).c : n == 7 ? (const IODESystemStepCalculator *)&StepCalculators::VelocityVerletStepCalc : &StepCalculators::LeapfrogStepCalc; double k = sym::real("k", -2, 2), h = sym::real("h", -1, 1), t = sym::real("t", -4, 4); V x = sVec("x", 2, -4, 4), g = sVec("g", 2, -4, 4), a = sVec("a", 2, -4, 4), b = sVec("b", 2, -4, 4), e = a, f = b; Sys s(2, [&](Real tt, const V &y, V &o) { o[0] = y[1]; o[1] = k * y[0] + tt; }); sym::obs("x", x[0]);
  c->calcStep(s, t, x, g, h, a, e); c->calcStep(s, t, x, g, h, b, f); eqV(a, b, "the step depends only on its arguments"); eqV(e, f, "the error estimate depends only on its arguments"); sym::check(s.t.size() % 2 == 0, "calls"); for (auto &p : s.x) sym::check(p.size() == 2, "stage size"); }
// symplectic steps for any force field
CASEN(force, 0, 3, 3) { int d = n / 2 + 1; const IODESystemStepCalculator *c = n % 2 ? (const IODESystemStepCalculator *)&StepCalculators::LeapfrogStepCalc : &StepCalculators::VelocityVerletStepCalc; auto F = [&](int i, const V &y) { return d == 1 ? sym::fn("f", y[0], -8, 8) : i ? sym::fn("f", y[0], y[1], -8, 8) : sym::fn("g", y[0], y[1], -8, 8); };
  Sys s(2 * d, [&](Real, const V &y, V &o) { for (int i = 0; i < d; i++) { o[i] = y[d + i]; o[d + i] = F(i, y); } }); V x = sVec("x", 2 * d, -4, 4), k(2 * d), y(2 * d), e(2 * d), z(2 * d); double h = sym::real("h", -1, 1), t = sym::real("t", -4, 4); sym::obs("h", h); s.derivs(t, x, k); c->calcStep(s, t, x, k, h, y, e);
  for (int i = 0; i < d; i++) { sym::eq(y[i], x[i] + h * x[d + i] + h * h / 2 * k[d + i], "position"); sym::eq(y[d + i], x[d + i] + h / 2 * (k[d + i] + F(i, y)), "velocity"); sym::eq(e[i], 0, "no error estimate"); sym::eq(e[d + i], 0, "no error estimate"); } sym::eq(s.t.back(), t + h, "the force is evaluated at the end of the step");
  s.derivs(t + h, y, k); c->calcStep(s, t + h, y, k, -h, z, e); eqV(z, x, "the step is reversible"); }
CASEN(area, 0, 1, 1) { const IODESystemStepCalculator *c = n % 2 ? (const IODESystemStepCalculator *)&StepCalculators::LeapfrogStepCalc : &StepCalculators::VelocityVerletStepCalc; double w = sym::real("w", -4, 4), h = sym::real("h", -1, 1); sym::obs("h", h); Sys s(2, [&](Real, const V &y, V &o) { o[0] = y[1]; o[1] = w * y[0]; }); V c0(2), c1(2), e(2), k(2), a{1.0, 0.0}, b{0.0, 1.0}; s.derivs(0, a, k); c->calcStep(s, 0, a, k, h, c0, e); s.derivs(0, b, k); c->calcStep(s, 0, b, k, h, c1, e); sym::eq(c0[0] * c1[1] - c0[1] * c1[0], 1, "the step keeps phase-space areas"); sym::eq(c0[0], c1[1], "harmonic step"); }
// fixed-step solver with any one-step method
struct AnyStep : IODESystemStepCalculator { mutable std::vector<double> t, h; mutable std::vector<V> x, k, o; void calcStep(const IODESystem &, const Real a, const V &b, const V &d, const Real e, V &out, V &err) const override { t.push_back(a); h.push_back(e); x.push_back(b); k.push_back(d); for (int i = 0; i < 2; i++) { out[i] = sym::real(i ? "b" : "a", (int)o.size(), -8, 8); err[i] = 0; } o.push_back(out); } };
CASEN(fixed, 1, 4, 6) { Sys s(2, [&](Real t, const V &y, V &o) { o[0] = sym::fn("f", t, y[0], -8, 8); o[1] = sym::fn("g", y[0], y[1], -8, 8); }); AnyStep st; V x = sVec("x", 2, -8, 8); double t1 = sym::real("t1", -4, 4), t2 = sym::real("t2", -4, 4); sym::assume((t1 - t2 > 0.1) | (t2 - t1 > 0.1)); sym::obs("t1", t1); ODESystemFixedStepSolver sol(s, st); auto r = sol.integrate(x, t1, t2, n);
  sym::check(r.size() == n + 1 && r.getNumSteps() == n && r.getTotalSavedSteps() == n + 1 && (int)st.t.size() == n && r.getSysDim() == 2, "one point per step"); sym::eq(r.getT1(), t1, "start time"); sym::eq(r.getT2(), t2, "end time"); V cur = x, tv = r.getTValues(); auto xv = r.getXValues(); sym::check(tv.size() == n + 1 && xv.rows() == 2 && xv.cols() == n + 1, "all points");
  for (int i = 0; i <= n; i++) { double t = t1 + (t2 - t1) * i / n; sym::eq(r.getTValue(i), t, "the times are equally spaced"); sym::eq(tv[i], t, "time values"); for (int j = 0; j < 2; j++) { sym::eq(r.getXValue(i, j), cur[j], "the saved states are those of the steps"); sym::eq(xv(j, i), cur[j], "state values"); sym::eq(r.getXValues(j)[i], cur[j], "component values"); } if (i == n) break; sym::eq(st.t[i], t, "step time"); sym::eq(st.h[i], (t2 - t1) / n, "step size"); eqV(st.x[i], cur, "step state"); V k(2); s.f(t, cur, k); sym::eq(s.t[i], t, "derivative time"); eqV(s.x[i], cur, "derivative state"); eqV(st.k[i], k, "the derivative is that of the state"); cur = st.o[i]; } eqV(r.getXValuesAtEnd(), cur, "the last state"); }
CASEN(linear, 1, 3, 5) { double l = sym::real("l", -1, 1), T = sym::real("T", 0.5, 2), x0 = sym::real("x", -4, 4); sym::obs("l", l); ODESystemFromStdFunc s(1, [&](Real, const V &x, V &o) { o[0] = l * x[0]; }); ODESystemFixedStepSolver sol(s, StepCalculators::RK4_Basic); double z = l * T / n, R = 1 + z * (1 + z / 2 * (1 + z / 3 * (1 + z / 4))), e = x0; for (int i = 0; i < n; i++) e = e * R; sym::eq(sol.integrate(V(1, x0), 0, T, n).getXValuesAtEnd()[0], e, "exponential growth"); }
// systems
static void sysf(Real t, const V &x, V &o) { o[0] = x[1] + t; o[1] = x[0]; }
static void sysj(Real t, const V &x, V &o, Matrix<Real> &j) { sysf(t, x, o); j(0, 0) = t; j(0, 1) = x[0]; j(1, 0) = x[1]; j(1, 1) = 1; }
CASE(systems) { double t = sym::real("t", -4, 4); V x = sVec("x", 2, -4, 4), o(2), p(2); Matrix<Real> j(2, 2), q(2, 2); sym::obs("t", t); sysj(t, x, o, j); ODESystem a(2, sysf); a.derivs(t, x, p); eqV(o, p, "derivatives"); ODESystem c = a; c(t, x, p); eqV(o, p, "derivatives"); ODESystemWithJacobian b(2, sysf, sysj); V p2(2); b.jacobian(t, x, p2, q); eqV(p2, o, "derivatives"); eqM(q, j, 2, 2, "jacobian"); V p3(2); b.derivs(t, x, p3); eqV(p3, o, "derivatives"); ODESystemWithJacobianFromStdFunc d(2, sysf, sysj); Matrix<Real> q2(2, 2); V p4(2), p5(2); d.jacobian(t, x, p4, q2); eqM(q2, j, 2, 2, "jacobian"); d.derivs(t, x, p5); eqV(p5, o, "derivatives"); sym::check(a.getDim() == 2 && b.getDim() == 2 && d.getDim() == 2, "dimension"); sym::check(THROWS(std::runtime_error, ODESystem().derivs(t, x, p)), "a system without a function is refused"); sym::check(THROWS(NotImplementedError, ODESystemWithJacobian().jacobian(t, x, p, q)), "a system without a Jacobian is refused"); }
// solution storage
CASEN(store, 0, 4, 6) { int cap = n, ind = sym::pick(0, 12, "ind"); ODESystemSolution s(0, 8, 2, cap); V a = sVec("a", 2, -8, 8), b = sVec("b", 2, -8, 8); double ta = sym::real("ta", -8, 8), tb = sym::real("tb", -8, 8); int how = sym::pick(0, 1, "how"); sym::obs("ta", ta); sym::check(s.isEmpty() && s.size() == 0 && s.getNumSteps() == 0 && s.capacity() == cap + 1, "a new solution is empty"); sym::check(THROWS(IndexError, s.getXValuesAtEnd()) & THROWS(IndexError, s.getTValue(0)), "a new solution is empty"); s.fillValues(0, ta, a); if (how == 0) s.fillValues(ind, tb, b); else { s.setTVal(ind, tb); s.setXVal(ind, 0, b[0]); s.setXVal(ind, 1, b[1]); }
  sym::check(s.size() == ind + 1 && s.capacity() > ind && s.getNumSteps() == ind && !s.isEmpty(), "the storage grows"); sym::eq(s.getTValue(ind), tb, "stored time"); for (int i = 0; i < 2; i++) { sym::eq(s.getXValue(ind, i), b[i], "stored state"); sym::eq(s.getXValuesAtEnd()[i], b[i], "stored state"); if (ind) sym::eq(s.getXValue(0, i), a[i], "earlier states are kept"); } if (ind) sym::eq(s.getTValue(0), ta, "earlier times are kept"); sym::check(s.getTValues().size() == ind + 1 && s.getXValues().cols() == ind + 1 && s.getXValues(1).size() == ind + 1, "only saved points are returned");
  for (int i = 1; i < ind; i++) sym::eq(s.getXValue(i, 0), 0, "gaps are zero"); sym::check(THROWS(IndexError, s.getTValue(ind + 1)) & THROWS(IndexError, s.getXValue(ind + 1, 0)) & THROWS(IndexError, s.getXValue(0, 2)) & THROWS(IndexError, s.getXValue(-1, 0)) & THROWS(IndexError, s.getXValues(2)) & THROWS(IndexError, s.setTVal(-1, ta)) & THROWS(IndexError, s.setXVal(-1, 0, ta)) & THROWS(IndexError, s.setXVal(0, 2, ta)) & THROWS(IndexError, s.fillValues(-1, ta, a)) & THROWS(ArgumentError, s.fillValues(0, ta, V(3))), "bad indices are refused");
  s.reserve(3); sym::check(s.size() == ind + 1, "reserving changes nothing"); s.reserve(20); sym::check(s.capacity() >= 20, "capacity"); sym::eq(s.getXValue(ind, 1), b[1], "reserving changes nothing"); s.setFinalSize(ind); sym::check(s.size() == ind + 1 && s.capacity() == ind + 1, "final size"); sym::eq(s.getXValue(ind, 1), b[1], "trimming keeps the states"); sym::eq(s.getTValue(ind), tb, "trimming keeps the times"); }
CASE(daestore) { int ind = sym::pick(0, 9, "ind"); DAESolution s(0, 8, 2, 1, 3); V a = sVec("a", 2, -8, 8), y = sVec("y", 1, -8, 8); double t = sym::real("t", -8, 8); sym::obs("t", t); s.fillValues(ind, t, a, y); sym::check(s.size() == ind + 1 && s.capacity() > ind, "the storage grows"); sym::eq(s.getTValue(ind), t, "stored time"); for (int i = 0; i < 2; i++) { sym::eq(s.getXValue(ind, i), a[i], "stored state"); sym::eq(s.getXValuesAtEnd()[i], a[i], "stored state"); } sym::eq(s.getYValue(ind, 0), y[0], "stored algebraic state"); sym::eq(s.getYValuesAtEnd()[0], y[0], "stored algebraic state"); s.setFinalSize(ind); sym::eq(s.getYValue(ind, 0), y[0], "trimming keeps the states"); sym::check(THROWS(IndexError, s.getYValue(ind, 1)) & THROWS(IndexError, s.getTValue(ind + 1)) & THROWS(ArgumentError, s.fillValues(0, t, y, y)) & THROWS(IndexError, s.fillValues(-1, t, a, y)), "bad indices are refused"); }
CASEN(interp, 0, 3, 3) { int extra = n % 2 ? 6 : 0; ODESystemSolution s(0, 4, 3, 4 + extra); double v[3][5], sh[3] = {}; if (n >= 2) for (int j = 0; j < 3; j++) sh[j] = sym::real("sh", j, -8, 8); for (int i = 0; i < 5; i++) { V x(3); for (int j = 0; j < 3; j++) { char b[8]; snprintf(b, 8, "v%d_%d", j, i); x[j] = v[j][i] = n < 2 ? sym::real(b, -8, 8) : sh[j] + (i * i % 5) * (j - 1.25) + i; } s.fillValues(i, i, x); } sym::obs("v", v[0][0]);
  if (n < 2) { auto l = s.getSolAsLinInterp(1); auto p = s.getSolAsPolyInterp(1, 4); auto c = s.getSolAsSplineInterp(1); for (int i = 0; i < 5; i++) { sym::eq(l(i), v[1][i], "the interpolation passes through the saved points"); sym::eq(p(i), v[1][i], "the polynomial passes through the saved points"); sym::eq(c(i), v[1][i], "the spline passes through the saved points"); } sym::eq(l(2.25), 0.75 * v[1][2] + 0.25 * v[1][3], "linear between the points"); }
  else { auto c2 = s.getSolAsParamCurve2D(2, 0); auto c3 = s.getSolAsParamCurve3D(1, 2, 0); for (int e = 0; e < 2; e++) { double t = e ? 4 : 0; int i = e ? 4 : 0; auto q = c2(t); auto r = c3(t); sym::eq(q[0], v[2][i], "the curve starts and ends at the solution's ends"); sym::eq(q[1], v[0][i], "the curve starts and ends at the solution's ends"); sym::eq(r[0], v[1][i], "the curve starts and ends at the solution's ends"); sym::eq(r[1], v[2][i], "the curve starts and ends at the solution's ends"); sym::eq(r[2], v[0][i], "the curve starts and ends at the solution's ends"); } } }
