// BOUNDS: every step size, start time and shift of the start values for two consecutive steps; order conditions of every rooted tree up to order 8; a rejected try followed by an accepted one for arbitrary derivative values in 2 dimensions; integrator runs of up to 4 (thorough 5) steps of arbitrary sizes with up to 4 output points
// STUBS: the integrator is driven by a recording stepper whose step sizes, suggestions and states are symbolic
// OUTSIDE: rounding, not-a-number derivatives, accumulation of error over many steps, accuracy of the cubic dense output between the step ends, Bulirsch-Stoer order above 8 for coupled systems
#include "h.h"
#include <functional>
#include <vector>
#include "mml/base/Function.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/algorithms/ODESolvers/ODESteppers.h"
#include "mml/algorithms/ODESolvers/ODEStepCalculators.h"
#include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
typedef Vector<Real> V;
static void eqV(const V &a, const V &b, const char *l) { sym::check(a.size() == b.size(), l); eqV(a, b, b.size(), l); }
struct Sys : IODESystem { int n; std::function<void(Real, const V &, V &)> f; mutable std::vector<double> t; mutable std::vector<V> x; Sys(int d, std::function<void(Real, const V &, V &)> g) : n(d), f(g) {} int getDim() const { return n; } void derivs(const Real a, const V &y, V &o) const { t.push_back(a); x.push_back(y); f(a, y, o); } };
struct Tree { std::vector<int> kids; int order; double gamma; };
static std::vector<Tree> trees(int p) { std::vector<Tree> r; std::vector<int> pick; for (int o = 1; o <= p; o++) { std::vector<Tree> add; std::function<void(int, int)> go = [&](int left, int max) { if (left == 0) { double g = o; for (int k : pick) g *= r[k].gamma; add.push_back({pick, o, g}); return; } for (int k = max; k >= 0; k--) if (r[k].order <= left) { pick.push_back(k); go(left - r[k].order, k); pick.pop_back(); } }; go(o - 1, (int)r.size() - 1); for (auto &t : add) r.push_back(t); } return r; }
static IAdaptiveStepper *stepper(int n, const IODESystem &s) { switch (n) { case 0: return new DormandPrince5_Stepper(s); case 1: return new CashKarp_Stepper(s); case 2: return new DormandPrince8_Stepper(s); case 3: return new BulirschStoer_Stepper(s); default: return new BulirschStoerRational_Stepper(s); } }
static const int ORDER[] = {5, 5, 8, 6, 6, 6};
// two consecutive steps integrate every tree of the method's order exactly
CASEN(order, 0, 5, 5) { auto T = trees(ORDER[n]); int d = T.size(); double c = sym::real("c", 64, 128), t = sym::real("t", -4, 4), h = sym::real("h", 0.5, 1); sym::obs("h", h); Sys s(d, [&](Real, const V &x, V &o) { for (int i = 0; i < d; i++) { double q = 1; for (int k : T[i].kids) q = q * (x[k] - c * (k % 3 + 1)); o[i] = q; } });
  V x(d), k(d), x0; for (int i = 0; i < d; i++) x[i] = c * (i % 3 + 1); x0 = x; s.derivs(t, x, k); IAdaptiveStepper *a = stepper(n == 5 ? 2 : n, s); double H = 0, eps = (n < 3) | (n == 5) ? 1e30 : 1e-10;
  for (int step = 0; step < (n == 2 ? 1 : 2); step++) { double hs = h, t0 = t + H; V xs = x, ks = k; size_t calls = s.t.size(); StepResult r = a->doStep(t0, x, k, hs, eps); H = H + hs; sym::check(r.accepted, "the step is accepted"); sym::eq(r.hDone, hs, "the whole step is done"); sym::check(r.funcEvals >= (int)(s.t.size() - calls), "no evaluation is left out of the count"); sym::check((r.hNext > 0) & (r.hNext <= 10 * hs), "the suggested step");
    double hp = 1; int o = 0; for (int i = 0; i < d; i++) { while (o < T[i].order) { hp = hp * H; o++; } sym::eq(x[i] - x0[i], hp / T[i].gamma, "order condition", 1e-8); } V f(d); s.derivs(t0 + hs, x, f); eqV(k, f, "the derivative handed on is the derivative at the new state"); eqV(a->getFinalDeriv(), f, "final derivative");
    for (size_t j = calls; j < s.t.size(); j++) sym::eq(s.t[j] - t, s.x[j][0] - x0[0], "every stage is evaluated at its own time", 1e-8);
    V p = a->interpolate(t0), q = a->interpolate(t0 + hs), m = a->interpolate(t0 + hs / 2); for (int i = 0; i < d; i++) sym::eq(p[i], xs[i], "the interpolation starts at the old state"), sym::eq(q[i], x[i], "the interpolation ends at the new state"), sym::eq(m[i], (xs[i] + x[i]) / 2 + hs * (ks[i] - f[i]) / 8, "the interpolation is the Hermite cubic"); } delete a; }
// Bulirsch-Stoer integrates powers of the time exactly once enough levels are used
CASEN(power, 0, 1, 1) { int d = 15; double h = sym::real("h", 0.5, 1); sym::obs("h", h); Sys s(d, [&](Real t, const V &x, V &o) { double q = 1; for (int i = 0; i < d; i++) { o[i] = q; q = q * t; } }); V x(d), k(d); s.derivs(0, x, k); IAdaptiveStepper *a = stepper(n + 3, s); StepResult r = a->doStep(0, x, k, h, 1e-13); sym::check(r.accepted, "the step is accepted"); double hp = 1; for (int i = 0; i < d; i++) { hp = hp * h; sym::eq(x[i], hp / (i + 1), "powers"); } delete a; }
// a step that was first tried with a larger size is the step a fresh stepper takes with the accepted size, and agrees with the one-step formulas and their error estimate
struct Cap {};
CASEN(retry, 0, 11, 11) { int m = n % 3, per = m == 0 ? 6 : m == 1 ? 5 : 12, later = n / 3 % 2; double h = 0.5, t = sym::real("t", -4, 4), eps = 1e-3, big = n >= 6 ? 2 : 1e9; V x{0., sym::real("x", -8, 8)}, k{1., sym::real("k", -4, 4)}, f = sVec("f", 2 * per + 2, -4, 4); sym::obs("x", x[1]); int mode = 0, calls = 0;
  Sys s(2, [&](Real, const V &, V &o) { int c = calls++; if (mode == 0) { o[0] = k[0]; o[1] = k[1]; return; } if (mode == 1) { if (c < per) { o[0] = c == per - 2 ? big : 1; o[1] = c == per - 1 ? k[1] + 0.125 : k[1]; return; } c -= per; } if (c > per) throw Cap(); o[0] = f[2 * c]; o[1] = f[2 * c + 1]; });
  IAdaptiveStepper *a = stepper(m, s), *b = stepper(m, s); V xa = x, ka = k; if (later) { StepResult r = a->doStep(t - 1, xa, ka, 1, 1e9); sym::check(r.accepted, "first step"); } V xs = xa, ks = ka; mode = 1; calls = 0; StepResult r; try { r = a->doStep(t, xa, ka, h, eps); } catch (Cap &) { return; } int used = calls; sym::reach("accepted after a retry");
  sym::check(r.accepted & (r.hDone < h) & (r.hDone > 0) & (r.errMax <= 1), "the accepted step is smaller than the rejected one"); sym::check(r.funcEvals >= used, "no evaluation is left out of the count");
  V xb = xs, kb = ks; mode = 2; calls = 0; StepResult q = b->doStep(t, xb, kb, r.hDone, eps); sym::check(q.accepted, "the accepted size is accepted by a fresh stepper"); sym::eq(q.hDone, r.hDone, "the accepted size is accepted by a fresh stepper"); eqV(xa, xb, "the state does not depend on the rejected try"); eqV(ka, kb, "the derivative does not depend on the rejected try"); sym::eq(q.errMax, r.errMax, "the error does not depend on the rejected try"); if (!later) sym::eq(q.hNext, r.hNext, "the suggestion does not depend on the rejected try"); V ia = a->interpolate(t + r.hDone / 4), ib = b->interpolate(t + r.hDone / 4); eqV(ia, ib, "the interpolation does not depend on the rejected try");
  V xc(2), e(2); calls = 0; (m == 0 ? (const IODESystemStepCalculator *)&StepCalculators::DormandPrince5StepCalc : m == 1 ? (const IODESystemStepCalculator *)&StepCalculators::RK5_CashKarp : (const IODESystemStepCalculator *)&StepCalculators::DormandPrince8StepCalc)->calcStep(s, t, xs, ks, r.hDone, xc, e); eqV(xa, xc, "the new state is that of the one-step formula"); for (int i = 0; i < 2; i++) sym::check(std::abs(e[i]) <= 1.001 * eps * (std::abs(xs[i]) + std::abs(r.hDone * ks[i]) + 1e-12), "the error estimate is within the tolerance"); delete a; delete b; }
// the integrator with any stepper: a recording stepper with arbitrary step sizes, suggestions, rejections and states
struct Rec { double t, h, eps, tNew; V x, k, xNew, kNew; bool acc; };
static std::vector<Rec> rec; static int budget, rejections; static double nextLo; static double slope; static V path(double t) { return V{t + 1, slope * t}; }
struct AnyStepper { int reset = 0; int last = -1; AnyStepper(const IODESystem &) {} void resetFSAL() { last = -1; }
  StepResult doStep(Real t, V &x, V &k, Real h, Real eps) { int c = rec.size(); if (c > 8) throw Cap(); Rec r{t, h, eps, t, x, k, x, k, true}; StepResult s; s.funcEvals = c + 3; if (rejections > 0 && h > 0.01 && sym::flag("reject")) { rejections--; r.acc = false; s.accepted = false; s.hDone = h; s.hNext = h / 2; rec.push_back(r); return s; }
    double f = c + 1 >= budget ? 1 : sym::real("part", c, 0.25, 1); s.accepted = true; s.hDone = h * f; r.tNew = t + s.hDone; s.hNext = c + 2 >= budget ? 100 : sym::real("next", c, nextLo, 4); r.xNew = path(r.tNew); r.kNew = V{r.tNew + c + 1, slope - c}; x = r.xNew; k = r.kNew; last = c; rec.push_back(r); return s; }
  V interpolate(Real t) const { sym::check(last >= 0, "interpolation after an accepted step"); const Rec &r = rec[last]; sym::check((t >= r.t) & (t <= r.tNew + 1e-15), "interpolation inside the step"); return path(t); } };
struct Lin : IODESystem { int getDim() const { return 2; } void derivs(const Real t, const V &x, V &o) const { o[0] = x[1] + t; o[1] = -x[0]; } };
static void runs(double t0, double tEnd, double h0, double hMax, double eps, const V &x0, const SolutionStatistics &st, bool ends = true) { V x = x0, k(2); Lin().derivs(t0, x0, k); double t = t0, h = h0, lo = 0, hi = 0; int acc = 0, rej = 0, ev = 0; bool first = true; for (size_t c = 0; c < rec.size(); c++) { Rec &r = rec[c]; sym::eq(r.t, t, "the steps are contiguous"); eqV(r.x, x, "each step starts from the last accepted state"); eqV(r.k, k, "each step starts with the derivative of the last accepted state"); sym::eq(r.eps, eps, "the tolerance"); sym::check((r.h > 0) & (r.t + r.h <= tEnd + 1e-12) & (r.h <= hMax + 1e-12), "the step size is within the range and the limit"); if (first && h0 > 0) sym::check(r.h <= h0 + 1e-12, "initial step size"); first = false; ev += c + 3; if (!r.acc) { rej++; continue; } acc++; double hd = r.tNew - r.t; if (acc == 1) lo = hi = hd; else { lo = lo < hd ? lo : hd; hi = hi > hd ? hi : hd; } t = r.tNew; x = r.xNew; k = r.kNew; }
  if (ends) sym::check((t >= tEnd - 1e-12) & (t <= tEnd + 1e-12), "the integration reaches the end"); sym::check((st.acceptedSteps == acc) & (st.rejectedSteps == rej) & (st.totalFuncEvals == ev) & (st.totalSteps() == acc + rej), "the statistics count every step"); if (acc) { sym::eq(st.minStepSize, lo, "smallest step"); sym::eq(st.maxStepSize, hi, "largest step"); } }
static void valueAt(const ODESystemSolution &s, int i, double t, const V &x0) { sym::eq(s.getTValue(i), t, "output time"); V v = i ? path(t) : x0; for (int j = 0; j < 2; j++) sym::eq(s.getXValue(i, j), v[j], i ? "the output value is that of the step that covers it" : "the first point is the start"); }
static void script(int steps, int rej, double lo) { rec.clear(); budget = steps; rejections = rej; nextLo = lo; slope = sym::real("slope", -4, 4); }
CASEN(dense, 0, 2, 5) { double t0 = sym::real("t0", -4, 4), L = sym::real("L", 0.5, 2.5); int rej = n & 1; script(n < 2 ? 2 : n < 4 ? 3 : 4, rej, 0.25); V x0 = sVec("x", 2, -8, 8); double h0 = sym::real("h0", 0.5, 3); sym::obs("L", L); sym::assume((L == 1) | (L == 2) | ((L > 1.001) & (L < 1.999)) | (L < 0.999) | (L > 2.001)); Lin s; ODEAdaptiveIntegrator<AnyStepper> a(s); ODESystemSolution r = a.integrate(x0, t0, t0 + L, 1, 1e-6, h0); runs(t0, t0 + L, h0, 1e9, 1e-6, x0, a.getStatistics());
  int N = L > 2 ? 3 : L > 1 ? 2 : 1; sym::check(r.size() == N + 1, "one point per output interval and the end"); for (int i = 0; i < N; i++) valueAt(r, i, t0 + i, x0); sym::eq(r.getTValue(N), t0 + L, "the last point is the end of the range"); for (int j = 0; j < 2; j++) sym::eq(r.getXValue(N, j), path(t0 + L)[j], "the last point is the final state"); }
CASEN(listed, 0, 2, 5) { int P = n < 3 ? 3 : 4; double t0 = sym::real("t0", -4, 4); V T(P); T[0] = t0; for (int i = 1; i < P; i++) T[i] = T[i - 1] + sym::real("gap", i, 0.5, 1); script(n < 2 ? 2 : 3, n & 1, 0.25); V x0 = sVec("x", 2, -8, 8); double h0 = sym::real("h0", 0.5, 3); sym::obs("h0", h0); Lin s; ODEAdaptiveIntegrator<AnyStepper> a(s); ODESystemSolution r = a.integrateAt(x0, T, 1e-6, h0); runs(t0, T[P - 1], h0, 1e9, 1e-6, x0, a.getStatistics()); sym::check(r.size() == P, "one point per time"); for (int i = 0; i < P; i++) valueAt(r, i, T[i], x0); sym::check(THROWS(ODESolverError, a.integrateAt(x0, V(1), 1e-6)), "a single time is refused"); }
// a suggestion below the smallest allowed step stops the integration unless the end is reached
CASE(smallest) { double t0 = sym::real("t0", -4, 4), lo = sym::real("lo", 0.1, 1); script(2, 0, 0.01); Lin s; V x0 = sVec("x", 2, -8, 8); sym::obs("lo", lo); ODEAdaptiveIntegrator<AnyStepper> a(s); bool thrown = false; budget = 3; try { a.integrate(x0, t0, t0 + 2, 0.5, 1e-6, 2, lo); } catch (ODESolverError &) { thrown = true; } bool below = false; for (size_t c = 0; c + 1 < rec.size(); c++) below |= (rec[c + 1].h < lo - 1e-9) & (rec[c + 1].t + rec[c + 1].h < t0 + 2 - 1e-9); const Rec &z = rec.back(); if (thrown) sym::check(z.tNew < t0 + 2 - 1e-16, "no refusal once the end is reached"); else sym::check(!below & (z.tNew >= t0 + 2 - 1e-12), "no step below the smallest allowed size is suggested and taken"); }
// the configured limits
CASEN(config, 0, 1, 2) { double t0 = sym::real("t0", -4, 4), hm = sym::real("hm", 0.25, 1); script(n + 1, 0, 0.5); Lin s; V x0 = sVec("x", 2, -8, 8); sym::obs("hm", hm); ODEIntegratorConfig c; c.initial_step_size = 2; c.output_interval = 0.5; c.tolerance = 1e-5; c.min_step_size = 1e-12; c.max_step_size = hm; int most = sym::pick(1, n + 3, "most"); c.max_steps = most; ODEAdaptiveIntegrator<AnyStepper> a(s); ODESystemSolution r = a.integrate(x0, t0, t0 + 1, c); auto &st = a.getStatistics(); double left = t0 + 1 - rec.back().tNew; sym::assume((left <= 0) | (left > 1e-6)); bool done = left <= 0; runs(t0, t0 + 1, 2, hm, 1e-5, x0, st, done); sym::check((int)rec.size() <= most, "no more steps than allowed"); sym::check((st.status == AlgorithmStatus::Success) == done, "running out of steps is reported"); sym::check(done == st.error_message.empty(), "error message");
  double t = rec.back().tNew; int N = done ? 3 : t >= t0 + 0.5 ? 2 : 1; sym::check((r.size() == N) | ((t >= t0 + 1 - 1e-12) & (r.size() >= 2)), "the points reached are returned"); valueAt(r, 0, t0, x0); if (t > t0 + 0.5 + 1e-12) valueAt(r, 1, t0 + 0.5, x0); if (done) valueAt(r, 2, t0 + 1, x0); }
CASE(refused) { double t0 = sym::real("t0", -4, 4), d = sym::real("d", -4, 4); script(1, 0, 0.5); Lin s; V x0 = sVec("x", 2, -8, 8); sym::obs("d", d); ODEAdaptiveIntegrator<AnyStepper> a(s); int k = sym::pick(0, 1, "k"); if (k == 0) { sym::assume((d < 0) | (d > 0.5)); if (d < 0) sym::check(THROWS(ODESolverError, a.integrate(x0, t0, t0 + d, 0.25, 1e-6, 1)), "a reversed range is refused"); else sym::check(a.integrate(x0, t0, t0 + d, 4, 1e-6, 8).size() == 2, "one output interval"); } else { sym::assume((d <= 0) | (d > 1)); if (d <= 0) sym::check(THROWS(ODESolverError, a.integrate(x0, t0, t0 + 1, d, 1e-6, 1)), "a non-positive output interval is refused"); else sym::check(a.integrate(x0, t0, t0 + 1, d, 1e-6, 8).size() == 2, "one output interval"); }
  for (int m = 0; m < 5; m++) { IAdaptiveStepper *p = stepper(m, s); sym::check(THROWS(ODESolverError, p->interpolate(t0)), "no interpolation before a step"); delete p; } }
// a rejected try of Bulirsch-Stoer changes neither the state nor the dense output of the last accepted step
CASEN(bsreject, 0, 1, 1) { double t = sym::real("t", -4, 4), y = sym::real("y", -4, 4); V x{1., y}, k{1., 0.}; bool wild = false; int calls = 0; sym::obs("y", y); Sys s(2, [&](Real, const V &, V &o) { o[0] = wild ? (calls++ % 2 ? 1e6 : -1e6) * (calls % 7 + 1) : 1; o[1] = 0; }); IAdaptiveStepper *a = stepper(n + 3, s); StepResult r = a->doStep(t, x, k, 0.5, 1e-9); sym::check(r.accepted, "accepted"); V m = a->interpolate(t + 0.125), xs = x, ks = k; wild = true; r = a->doStep(t + 0.5, x, k, 0.5, 1e-14); sym::check(!r.accepted & (r.hNext < 0.5) & (r.hNext > 0), "rejected"); eqV(x, xs, "the state is unchanged"); eqV(k, ks, "the derivative is unchanged"); eqV(a->interpolate(t + 0.125), m, "the dense output is unchanged"); sym::eq(m[0], 1.125, "dense output"); delete a; }
CASE(estimate) { double t0 = sym::real("t0", -4, 4), L = sym::real("L", 0.25, 4), q = sym::real("q", 0.5, 4); Sys s(1, [&](Real, const V &x, V &o) { o[0] = -q * x[0]; }); V x0{1.}; sym::obs("q", q); ODEAdaptiveIntegrator<AnyStepper> a(s); double h = a.estimateInitialStep(t0, x0, t0 + L, 1e-8); sym::check((h > 0) & (h <= L), "the estimated first step is positive and within the range"); }
struct Thrower : AnyStepper { using AnyStepper::AnyStepper; StepResult doStep(Real t, V &x, V &k, Real h, Real eps) { int w = sym::pick(0, 2, "what"); if (w == 0) throw ODESolverError("x"); if (w == 1) throw std::runtime_error("y"); return AnyStepper::doStep(t, x, k, h, eps); } };
CASE(detailed) { double t0 = sym::real("t0", -4, 4), L = sym::real("L", 0.5, 2); script(1, 0, 0.5); Lin s; V x0 = sVec("x", 2, -8, 8); sym::obs("L", L); ODEAdaptiveConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; c.integrator.initial_step_size = 4; c.integrator.output_interval = 4; auto r = ODEAdaptiveIntegrateDetailed<Thrower>(s, x0, t0, t0 + L, c); if (rec.empty()) { sym::check(r.status == AlgorithmStatus::NumericalInstability | r.status == AlgorithmStatus::AlgorithmSpecificFailure, "failure status"); sym::check(!r.error_message.empty() & !r.solution.has_value(), "failure"); } else { sym::check(r.status == AlgorithmStatus::Success & r.solution.has_value(), "success"); sym::check((r.accepted_steps == 1) & (r.rejected_steps == 0) & (r.total_func_evals == 3) & (r.function_evaluations == 3), "statistics"); sym::eq(r.max_step_size, L, "step size"); sym::eq(r.min_step_size, L, "step size"); valueAt(*r.solution, 1, t0 + L, x0); } }
