// BOUNDS: every polynomial of degree up to 9 (coefficients in [-1,1]) at every point of [-4,4] and every step in [1/8,1] (and every default step), scalar functions and plane curves, surfaces quadratic or cubic in each parameter; Richardson tableaux of up to 4 columns
// OUTSIDE: rounding (finite differences amplify it; the rounding allowance inside the error estimates is not checked beyond being at most 1e-6 here), functions that are not polynomials
#include "h.h"
#include "mml/core/Derivation.h"
using namespace MML::Derivation;
// the polynomial sum c_k (t - x)^k, which records where it is sampled
struct Pf : IRealFunction { double x, c[10]; int n; mutable double lo, hi; mutable int cnt = 0; Pf(double x_, int n_) : x(x_), n(n_), lo(x_), hi(x_) { for (int i = 0; i < n; i++) c[i] = sym::real("c", i, -1, 1); } double operator()(double t) const { cnt++; if (t < lo) lo = t; if (t > hi) hi = t; double u = t - x, s = 0; for (int i = n - 1; i >= 0; i--) s = s * u + c[i]; return s; } };
template <int N> struct Pc : IParametricCurve<N> { double x, c[N][10]; int n; mutable int cnt = 0; Pc(double x_, int n_) : x(x_), n(n_) { const char *nm[] = {"cx", "cy", "cz"}; for (int d = 0; d < N; d++) for (int i = 0; i < n; i++) c[d][i] = sym::real(nm[d], i, -1, 1); } VectorN<Real, N> operator()(double t) const { cnt++; VectorN<Real, N> r; double u = t - x; for (int d = 0; d < N; d++) { double s = 0; for (int i = n - 1; i >= 0; i--) s = s * u + c[d][i]; r[d] = s; } return r; } double getMinT() const { return -10; } double getMaxT() const { return 10; } };
typedef double (*M1)(const IRealFunction &, double, double, double *); typedef double (*M0)(const IRealFunction &, double); typedef double (*M0e)(const IRealFunction &, double, double *);
typedef DerivativeResult<double> (*MD)(const IRealFunction &, double, double, const DerivativeConfig &); typedef DerivativeResult<double> (*MD0)(const IRealFunction &, double, const DerivativeConfig &);
struct Meth { int ord, deg, ev, ee; double step; M1 f; M0e fe; MD d; MD0 d0; };
#define ME(NM, O, D, E, EE, S) { O, D, E, EE, S, (M1)NM, (M0e)NM, (MD)NM##Detailed, (MD0)NM##Detailed }
static const Meth T[] = { ME(NDer1, 1, 1, 2, 3, NDer1_h), ME(NDer2, 1, 2, 2, 4, NDer2_h), ME(NDer4, 1, 4, 4, 6, NDer4_h), ME(NDer6, 1, 6, 6, 8, NDer6_h), ME(NDer8, 1, 8, 8, 10, NDer8_h), ME(NSecDer2, 2, 3, 3, 5, NDer2_h), ME(NSecDer4, 2, 5, 5, 7, NDer4_h), ME(NThirdDer2, 3, 4, 4, 6, NDer4_h), ME(NThirdDer4, 3, 6, 6, 8, NDer4_h) };
static const double FAC[] = {1, 1, 2, 6}; static const double H[] = {0.125, 0.5, 1};
CASEN(exact, 0, 8, 8) { const Meth &m = T[n]; double x = sym::real("x", -4, 4), h = sym::real("h", 0.125, 1); Pf f(x, m.deg + 1); double v = m.f(f, x, h, nullptr); sym::obs("x", x); sym::eq(v, FAC[m.ord] * f.c[m.ord], "exact up to the degree of the formula"); }
CASEN(order, 0, 8, 8) { const Meth &m = T[n]; double x = sym::real("x", -4, 4), h = H[sym::pick(0, 2, "h")]; Pf f(x, m.deg + 2), g = f; g.c[m.deg + 1] = 0; double v = m.f(f, x, h, nullptr), w = v - FAC[m.ord] * f.c[m.ord], e = -1; sym::obs("x", x); double v2 = m.f(f, x, h, &e); sym::eq(v, v2, "same value when an error estimate is asked for"); sym::eq(e, std::abs(w), "estimate equals the leading truncation error", 1e-6); m.f(g, x, h, &e); sym::check(e >= 0 && e < 1e-6, "no truncation error claimed on exact degrees"); }
CASEN(rate, 0, 8, 8) { const Meth &m = T[n]; double x = sym::real("x", -4, 4), h = sym::real("h", 0.125, 1); Pf f(x, m.deg + 2); double e1 = m.f(f, x, h, nullptr) - FAC[m.ord] * f.c[m.ord], e2 = m.f(f, x, h / 2, nullptr) - FAC[m.ord] * f.c[m.ord]; sym::obs("x", x); int p = m.deg + 1 - m.ord; sym::eq(e1, e2 * (1 << p), "halving the step divides the error by 2^order"); }
CASEN(dflt, 0, 8, 8) { const Meth &m = T[n]; double x = sym::real("x", -4, 4), a = std::abs(x), h = m.step * (a > 1 ? a : 1); Pf f(x, 4); sym::obs("x", x); sym::check(h == ScaleStep(m.step, x) && ScaleStep(m.step, x) == ScaleStep(m.step, -x), "step scaled by max(1,|x|)"); DerivativeConfig c; c.estimate_error = false; auto r = m.d0(f, x, c); sym::check(r.step_used == h && r.value == m.f(f, x, h, nullptr), "default step used"); c.step = 0.25; r = m.d0(f, x, c); sym::check(r.step_used == 0.25 && r.value == m.f(f, x, 0.25, nullptr), "configured step used"); double e1, e2; sym::check(m.fe(f, x, &e1) == m.f(f, x, h, &e2) && e1 == e2, "default overload"); }
CASEN(count, 0, 8, 8) { const Meth &m = T[n]; double x = sym::real("x", -4, 4), h = sym::real("h", 0.125, 1); Pf f(x, 2); DerivativeConfig c; c.estimate_error = sym::flag("est"); sym::obs("x", x); auto r = m.d(f, x, h, c); sym::check(f.cnt == (c.estimate_error ? m.ee : m.ev) && r.function_evaluations == f.cnt, "evaluations as reported"); sym::check(r.status == AlgorithmStatus::Success && r.step_used == h, "status and step"); if (!c.estimate_error) sym::check(r.error == 0, "no estimate unless asked"); }
CASEN(badstep, 0, 8, 8) { const Meth &m = T[n]; double x = sym::real("x", -4, 4), h = sym::real("h", -2, 1); Pf f(x, 2); double v; sym::obs("x", x); sym::check(sym_throws<NumericInputError>([&] { v = m.f(f, x, h, nullptr); }) == (h <= 0 ? 1 : 0), "non-positive steps refused"); DerivativeConfig c; c.exception_policy = EvaluationExceptionPolicy::Propagate; sym::check(sym_throws<NumericInputError>([&] { m.d(f, x, h, c); }) == (h <= 0 ? 1 : 0), "refused with an exception"); }
CASEN(side, 0, 3, 3) { typedef double (*F)(const IRealFunction &, double, double, double *); typedef double (*G)(const IRealFunction &, double, double *); static const F L[] = {NDer2Left, NDer4Left, NDer6Left, NDer8Left}, R[] = {NDer2Right, NDer4Right, NDer6Right, NDer8Right}; static const G L0[] = {NDer2Left, NDer4Left, NDer6Left, NDer8Left}, R0[] = {NDer2Right, NDer4Right, NDer6Right, NDer8Right}; double x = sym::real("x", -4, 4), h = sym::real("h", 0.125, 1), e; bool d = sym::flag("default"), er = sym::flag("err"); Pf f(x, 2); double a = d ? L0[n](f, x, er ? &e : nullptr) : L[n](f, x, h, er ? &e : nullptr); sym::obs("x", x); sym::check(f.hi <= x, "left derivative never samples to the right"); sym::eq(a, f.c[1], "exact on affine functions"); Pf g(x, 3); a = d ? R0[n](g, x, er ? &e : nullptr) : R[n](g, x, h, er ? &e : nullptr); sym::check(g.lo >= x, "right derivative never samples to the left"); double s = d ? ScaleStep(T[n + 1].step, x) : h; double off = (a - g.c[1]); sym::check(off <= 12 * s * std::abs(g.c[2]) + 1e-9 && off >= -12 * s * std::abs(g.c[2]) - 1e-9, "derivative at most six steps away"); }
CASE(side1) { double x = sym::real("x", -4, 4), h = sym::real("h", 0.125, 1), e, e2; bool d = sym::flag("default"), er = sym::flag("err"); Pf f(x, 3), g = f; double a = d ? NDer1Left(f, x, er ? &e : nullptr) : NDer1Left(f, x, h, er ? &e : nullptr), b = d ? NDer1Right(g, x, er ? &e2 : nullptr) : NDer1Right(g, x, h, er ? &e2 : nullptr); double s = d ? ScaleStep(NDer1_h, x) : h; sym::obs("x", x); sym::check(f.hi <= x && g.lo >= x, "one-sided derivatives sample one side only"); sym::eq(a, f.c[1] - s * f.c[2], "backward difference"); sym::eq(b, f.c[1] + s * f.c[2], "forward difference"); if (er) { sym::eq(e, s * std::abs(f.c[2]), "backward estimate", 1e-6); sym::eq(e2, s * std::abs(f.c[2]), "forward estimate", 1e-6); } }
CASEN(rich, 1, 4, 5) { typedef double (*F)(const IRealFunction &, double, double, double *, int, double); static const F R[] = {NDerRichardson, NSecDerRichardson, NThirdDerRichardson}; int k = sym::pick(0, 2, "which"); double x = sym::real("x", -4, 4), h = H[sym::pick(0, 2, "h")], e = -1; Pf f(x, k + 4); f.c[0] = 0; double v = R[k](f, x, h, &e, n, 2); sym::obs("x", x); double base = R[k](f, x, h, nullptr, 1, 2), ex = FAC[k + 1] * f.c[k + 1]; if (n > 1) { sym::eq(v, ex, "exact once one extrapolation can be made"); } else sym::eq(v, base, "a single column is the central difference"); sym::eq(R[k](f, x, 0, &e, 3, 2), 0, "zero step"); }
CASE(richdef) { double x = sym::real("x", -4, 4), e1, e2; Pf f(x, 2); sym::obs("x", x); sym::eq(NDerAdaptive(f, x, &e1), f.c[1], "adaptive first derivative of a line", 1e-6); sym::eq(NDerRichardson(f, x, &e2), f.c[1], "Richardson first derivative of a line", 1e-6); sym::check(e1 == e2, "adaptive is Richardson with the default step"); Pf g(x, 3); sym::eq(NSecDerAdaptive(g, x), 2 * g.c[2], "adaptive second derivative", 1e-6); sym::eq(Derive(f, x), f.c[1], "default first derivative", 1e-6); sym::eq(DeriveErr(f, x, &e1), f.c[1], "default first derivative", 1e-6); sym::eq(DeriveSec(g, x, nullptr), 2 * g.c[2], "default second derivative", 1e-6); Pf w(x, 4); sym::eq(DeriveThird(w, x, nullptr), 6 * w.c[3], "default third derivative", 1e-5); sym::eq(NThirdDerAdaptive(w, x), 6 * w.c[3], "adaptive third derivative", 1e-6); }
// curves
typedef VectorN<Real, 2> (*C1)(const IParametricCurve<2> &, double, double, double *); typedef VectorN<Real, 2> (*C0)(const IParametricCurve<2> &, double, double *);
struct CM { int ord, deg; double step; C1 f; C0 g; };
#define CE(NM, O, D, S) { O, D, S, (C1)NM<2>, (C0)NM<2> }
static const CM CT[] = { CE(NDer1, 1, 1, NDer1_h), CE(NDer2, 1, 2, NDer2_h), CE(NDer4, 1, 4, NDer4_h), CE(NDer6, 1, 6, NDer6_h), CE(NDer8, 1, 8, NDer8_h), CE(NSecDer2, 2, 3, NDer2_h), CE(NSecDer4, 2, 5, NDer4_h), CE(NThirdDer2, 3, 4, NDer4_h), CE(NThirdDer4, 3, 6, NDer4_h) };
CASEN(cexact, 0, 8, 8) { const CM &m = CT[n]; double x = sym::real("x", -4, 4), h = sym::real("h", 0.125, 1); Pc<2> f(x, m.deg + 1); auto v = m.f(f, x, h, nullptr); sym::obs("x", x); for (int d = 0; d < 2; d++) sym::eq(v[d], FAC[m.ord] * f.c[d][m.ord], "exact up to the degree of the formula"); double a = std::abs(x), s = m.step * (a > 1 ? a : 1); auto p = m.g(f, x, nullptr), q = m.f(f, x, s, nullptr); sym::check(p[0] == q[0] && p[1] == q[1], "default step"); }
CASEN(corder, 0, 8, 8) { const CM &m = CT[n]; double x = sym::real("x", -4, 4), h = H[sym::pick(0, 2, "h")], k = sym::real("k", -1, 1); Pc<2> f(x, m.deg + 2); for (int i = 0; i < m.deg + 2; i++) if (i != m.deg - 1 || n == 8) f.c[0][i] = f.c[1][i] = 0; f.c[0][m.deg + 1] = 3 * k; f.c[1][m.deg + 1] = -4 * k; double e = -1; auto v = m.f(f, x, h, &e); sym::obs("x", x); double w0 = v[0] - FAC[m.ord] * f.c[0][m.ord], w1 = v[1] - FAC[m.ord] * f.c[1][m.ord]; sym::eq(4 * w0, -3 * w1, "error along the leading coefficient"); double ex = std::abs(w0) / 3 * 5; sym::eq(e, ex, "estimate equals the leading truncation error", 1e-6); }
// surfaces: product of quadratics/cubics in u and w
struct Sf : IParametricSurfaceRect<2> { double u0, w0, c[2][4][4]; int a, b; Sf(double u, double w, int a_, int b_) : u0(u), w0(w), a(a_), b(b_) { for (int d = 0; d < 2; d++) for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) c[d][i][j] = sym::real(d ? "sy" : "sx", i * 4 + j, -1, 1); } VectorN<Real, 2> operator()(double u, double w) const { VectorN<Real, 2> r; for (int d = 0; d < 2; d++) { double s = 0; for (int i = a; i >= 0; i--) { double q = 0; for (int j = b; j >= 0; j--) q = q * (w - w0) + c[d][i][j]; s = s * (u - u0) + q; } r[d] = s; } return r; } double getMinU() const { return -9; } double getMaxU() const { return 9; } double getMinW() const { return -9; } double getMaxW() const { return 9; } };
CASEN(surf, 0, 6, 6) { double u = sym::real("u", -4, 4), w = sym::real("w", -4, 4), h = sym::real("h", 0.125, 1), e = -1, au = std::abs(u), aw = std::abs(w), su = au > 1 ? au : 1, sw = aw > 1 ? aw : 1, sm = su > sw ? su : sw; sym::obs("u", u); VectorN<Real, 2> v, p, q; auto go = [&](const Sf &s, int i, int j, double k) { for (int d = 0; d < 2; d++) sym::eq(v[d], k * s.c[d][i][j], "exact on its degrees"); sym::check(p[0] == q[0] && p[1] == q[1], "default step"); }; switch (n) {
  case 0: { Sf s(u, w, 1, 2); v = NDer1_u<2>(s, u, w, h, nullptr); p = NDer1_u<2>(s, u, w); q = NDer1_u<2>(s, u, w, NDer1_h * su, nullptr); go(s, 1, 0, 1); break; }
  case 1: { Sf s(u, w, 2, 1); v = NDer1_w<2>(s, u, w, h, nullptr); p = NDer1_w<2>(s, u, w); q = NDer1_w<2>(s, u, w, NDer1_h * sw, nullptr); go(s, 0, 1, 1); break; }
  case 2: { Sf s(u, w, 2, 2); v = NDer2_u<2>(s, u, w, h, nullptr); p = NDer2_u<2>(s, u, w); q = NDer2_u<2>(s, u, w, NDer2_h * su, nullptr); go(s, 1, 0, 1); break; }
  case 3: { Sf s(u, w, 2, 2); v = NDer2_w<2>(s, u, w, h, nullptr); p = NDer2_w<2>(s, u, w); q = NDer2_w<2>(s, u, w, NDer2_h * sw, nullptr); go(s, 0, 1, 1); break; }
  case 4: { Sf s(u, w, 3, 1); v = NDer2_uu<2>(s, u, w, h, nullptr); p = NDer2_uu<2>(s, u, w); q = NDer2_uu<2>(s, u, w, NDer2_h * su, nullptr); go(s, 2, 0, 2); break; }
  case 5: { Sf s(u, w, 1, 3); v = NDer2_ww<2>(s, u, w, h, nullptr); p = NDer2_ww<2>(s, u, w); q = NDer2_ww<2>(s, u, w, NDer2_h * sw, nullptr); go(s, 0, 2, 2); break; }
  case 6: { Sf s(u, w, 2, 2); double k = sym::real("k", 0.125, 1); v = NDer2_uw<2>(s, u, w, h, k, nullptr); auto z = NDer2_uw<2>(s, u, w, h, nullptr); for (int d = 0; d < 2; d++) sym::eq(z[d], s.c[d][1][1], "one step for both"); p = NDer2_uw<2>(s, u, w); q = NDer2_uw<2>(s, u, w, NDer2_h * sm, nullptr); go(s, 1, 1, 1); break; } } }
