// BOUNDS: event functions with arbitrary levels and two slopes on motion with piecewise constant velocity, arbitrary start, range length, step sizes (quick: up to 2 steps for one event function, 1 step for two; thorough: 2 steps for two) and output grid; two event functions with every direction filter and action; location tolerance 0.01
// STUBS: the integrator is driven by an exact stepper for constant velocity with symbolic step sizes and suggestions
// OUTSIDE: crossings closer than 0.05 to each other or to the ends of the range, several crossings of one event function within one step, tangential contacts, rounding
#include "h.h"
#include <algorithm>
#include <functional>
#include <vector>
#include "mml/base/Function.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/interfaces/IODESystemWithEvents.h"
#include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
#include "mml/algorithms/ODESolvers/ODESolverEventDetection.h"
typedef Vector<Real> V;
struct Cap {};
static int steps, budget; static V lastX;
struct Exact { double t0 = 0, t1 = 0; V x0{0., 0.}, k0{0., 0.}; bool ok = false; Exact(const IODESystem &) {} void resetFSAL() { ok = false; }
  StepResult doStep(Real t, V &x, V &k, Real h, Real) { int c = steps++; if (c > budget + 6) throw Cap(); sym::check((k[0] == x[1]) & (k[1] == 0), "the derivative belongs to the state"); StepResult s; s.accepted = true; s.funcEvals = 1; s.hDone = c + 1 >= budget ? h : h * sym::real("part", c, 0.25, 1); s.hNext = c + 2 >= budget ? 100 : sym::real("next", c, 0.5, 4); t0 = t; t1 = t + s.hDone; x0 = x; k0 = k; ok = true; for (int i = 0; i < 2; i++) x[i] = x[i] + s.hDone * k[i]; return s; }
  V interpolate(Real t) const { sym::check(ok, "interpolation after an accepted step"); sym::check((t >= t0) & (t <= t1), "interpolation inside the step"); return V{x0[0] + (t - t0) * k0[0], x0[1] + (t - t0) * k0[1]}; } };
struct Motion : IODESystemWithEvents { int m = 1; double lev[2], slope = 1; EventDirection dir[2]; EventAction act[2]; int kind = 0; mutable int handled = 0; int getDim() const { return 2; } void derivs(const Real, const V &x, V &o) const { o[0] = x[1]; o[1] = 0; } int getNumEvents() const { return m; } Real eventFunction(int i, Real, const V &x) const { return (i ? -slope : slope) * (x[0] - lev[i]); } EventDirection getEventDirection(int i) const { return dir[i]; } EventAction getEventAction(int i) const { return act[i]; }
  void handleEvent(int i, Real, V &x) const { if (++handled > 3) throw Cap(); if (kind == 0) x[1] = -x[1]; else if (kind == 1) x[1] = x[1] / 2; else x[0] = x[0] + 4; } };
static const double TOL = 0.01;
static bool wants(EventDirection d, double slope) { return d == EventDirection::Both || d == (slope > 0 ? EventDirection::Increasing : EventDirection::Decreasing); }
static void near(double a, double b, double tol, const char *l) { sym::check((a - b <= tol) & (b - a <= tol), l); }
struct Setup { Motion s; double t0, L, p, v, tau[2], sl[2]; V x0{0., 0.}; };
static Setup setup(int m, int vs, double L0, double L1) { Setup q; q.s.m = m; q.t0 = sym::real("t0", -4, 4); q.L = sym::real("L", L0, L1); q.p = sym::real("p", -4, 4); q.v = vs ? -2 : 1; q.s.slope = vs ? 0.5 : 1; for (int i = 0; i < m; i++) { q.tau[i] = sym::real("tau", i, -1, 4); double u = q.tau[i]; sym::assume((u > 0.05) | (u < -0.05)); sym::assume((u > q.L + 0.05) | (u < q.L - 0.05)); q.s.lev[i] = q.p + q.v * u; q.sl[i] = (i ? -q.s.slope : q.s.slope) * q.v; } if (m == 2) sym::assume((q.tau[0] > q.tau[1] + 0.05) | (q.tau[0] < q.tau[1] - 0.05)); q.x0[0] = q.p; q.x0[1] = q.v; steps = 0; sym::obs("L", q.L); return q; }
static const EventDirection DIR[] = {EventDirection::Increasing, EventDirection::Decreasing, EventDirection::Both};
// every crossing in the wanted direction is reported once, in order, at its time and state; a stopping event ends the integration there
CASEN(events, 0, 9, 17) { int vs = n & 1, mode = n / 2 % 3; budget = n < 6 ? 1 : 2; int m = n < 6 || n >= 12 ? 2 : 1; Setup q = setup(m, vs, 1.1, 1.75); for (int i = 0; i < m; i++) { q.s.dir[i] = DIR[(n + i * 2 + mode) % 3]; q.s.act[i] = EventAction::Continue; } if (mode) { q.s.dir[0] = q.s.dir[1] = EventDirection::Both; q.s.act[1] = EventAction::Stop; if (mode == 2 || m == 1) q.s.act[0] = EventAction::Stop; }
  ODEEventDetectionIntegrator<Exact> a(q.s); EventResult r = a.integrateWithEvents(q.s, q.x0, q.t0, q.t0 + q.L, 1, 1e-6, TOL, 3); std::vector<int> order = m == 2 ? std::vector<int>{0, 1} : std::vector<int>{0}; if (m == 2 && q.tau[1] < q.tau[0]) std::swap(order[0], order[1]); size_t e = 0; bool stopped = false; double end = q.L;
  for (int i : order) { if (stopped || q.tau[i] < 0 || q.tau[i] > q.L || !wants(q.s.dir[i], q.sl[i])) continue; if (e >= r.events.size()) { sym::check(false, "no crossing is missed"); return; } const EventInfo &v = r.events[e++]; double err = v.time - q.t0 - q.tau[i]; sym::check(v.eventIndex == i, "the right event function"); near(v.time - q.t0, q.tau[i], 0.0201, "the crossing is located"); near(v.eventValue, q.sl[i] * err, 1e-9, "event value"); sym::eq(v.state[0], q.p + q.v * (v.time - q.t0), "the state at the event"); sym::eq(v.state[1], q.v, "the state at the event"); sym::check(v.direction == (q.sl[i] > 0 ? EventDirection::Increasing : EventDirection::Decreasing), "the direction of the crossing"); if (q.s.act[i] == EventAction::Stop) { stopped = true; end = v.time - q.t0; } }
  sym::check(e == r.events.size(), "no event without a crossing"); sym::check(r.terminatedByEvent == stopped, "stopping"); near(r.finalTime, q.t0 + end, 1e-9, "final time"); near(r.finalState[0], q.p + q.v * end, 1e-9, "final state"); sym::eq(r.finalState[1], q.v, "final state");
  int N = r.solution.size(); sym::check(N == (stopped ? (end >= 1 ? 2 : 1) : 2 + (q.L > 1)), "the output points up to the end"); for (int i = 0; i < N; i++) { double t = !stopped && i == N - 1 ? q.L : i; near(r.solution.getTValue(i), q.t0 + t, 1e-9, "output time"); near(r.solution.getXValue(i, 0), q.p + q.v * t, 1e-9, "output state"); } }
// a restart continues from the handled state: reversal, change of speed, jump
CASEN(restart, 0, 5, 11) { int vs = n & 1; budget = n < 6 ? 1 : 2; Setup q = setup(1, vs, 1, 1.75); q.s.kind = n / 2 % 3; q.s.act[0] = EventAction::Restart; q.s.dir[0] = sym::flag("both") ? EventDirection::Both : q.sl[0] > 0 ? EventDirection::Increasing : EventDirection::Decreasing; sym::assume((q.tau[0] > 0) & (q.tau[0] < q.L)); ODEEventDetectionIntegrator<Exact> a(q.s); EventResult r = a.integrateWithEvents(q.s, q.x0, q.t0, q.t0 + q.L, 4, 1e-6, TOL, 3);
  sym::check((r.events.size() >= 1), "the event is found"); const EventInfo &v = r.events[0]; double w = v.time - q.t0; near(w, q.tau[0], 0.0201, "the crossing is located"); sym::check(!r.terminatedByEvent, "not stopped"); double f = q.p + q.v * w; double nv = q.s.kind == 0 ? -q.v : q.s.kind == 1 ? q.v / 2 : q.v; if (q.s.kind == 2) { f = f + 4; if (vs) { sym::check((int)r.events.size() == q.s.handled, "handled"); return; } } sym::obs("handled", q.s.handled); sym::check((r.events.size() == 1) & (q.s.handled == 1), "the crossing is handled once"); sym::eq(r.finalState[1], nv, "the new velocity"); near(r.finalState[0], f + nv * (q.L - w), 1e-9, "the motion continues from the handled state"); near(r.finalTime, q.t0 + q.L, 1e-9, "final time"); }
CASE(refusals) { double t0 = sym::real("t0", -4, 4), d = sym::real("d", 0.125, 4); Setup q = setup(1, 0, 1, 1.5); q.s.dir[0] = EventDirection::Both; q.s.act[0] = EventAction::Continue; budget = 1; ODEEventDetectionIntegrator<Exact> a(q.s); sym::check(THROWS(ODESolverError, a.integrateWithEvents(q.s, q.x0, t0, t0 - d, 1, 1e-6, TOL, 1)), "a reversed range is refused"); sym::check(THROWS(ODESolverError, a.integrateWithEvents(q.s, q.x0, t0, t0 + d, -d, 1e-6, TOL, 1)), "a negative output interval is refused"); sym::check(THROWS(ODESolverError, a.integrateWithEvents(q.s, q.x0, t0, t0 + d, 0, 1e-6, TOL, 1)), "a zero output interval is refused"); }
