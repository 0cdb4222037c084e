// BOUNDS: polynomials with arbitrary real coefficients in [-8,8] of every degree -1 (empty) .. 3 (thorough 4), every degree pair; interpolation through up to 4 points (abscissae symbolic up to 3); integer-coefficient division up to degree 3 with symbolic leading zeros
// OUTSIDE: complex and matrix coefficients, text output, rounding
#include "h.h"
#include "mml/base/Polynom.h"
typedef PolynomReal P;
static P sP(const char *n, int d) { P p(d); for (int i = 0; i <= d; i++) p[i] = sym::real(n, i, -8, 8); return p; }
static double ev(const P &p, double x) { double r = 0, t = 1; for (int i = 0; i <= p.degree(); i++) { r += p[i] * t; t *= x; } return r; }
static void eqP(const P &a, const P &b, const char *l) { int m = std::max(a.degree(), b.degree()); for (int i = 0; i <= m; i++) sym::eq(a.coeff(i), b.coeff(i), l); }
static int D() { return sym::deep() ? 4 : 3; }
CASE(eval) { int d = sym::pick(-1, D(), "d"); P p = sP("p", d); double x = sym::real("x"); sym::obs("v", p(x)); sym::eq(p(x), ev(p, x), "value is the coefficient sum"); sym::eq(p.eval(x), ev(p, x), "eval"); sym::check(p.degree() == d && p.isNull() == (d < 0), "degree"); sym::eq(p.leadingTerm(), d < 0 ? 0 : p[d], "leading term"); sym::eq(p.constantTerm(), d < 0 ? 0 : p[0], "constant term"); int i = sym::integer("i", -2, 6); int k = i; double c = p.coeff(k); double w = 0; for (int j = 0; j <= d; j++) if (j == k) w = p[j]; sym::eq(c, w, "coeff"); PolynomRealFunc f(p); sym::eq(f(x), ev(p, x), "function form"); }
CASE(ring) { int d = sym::pick(-1, D(), "d"), e = sym::pick(-1, D(), "e"); P p = sP("p", d), q = sP("q", e); double x = sym::real("x"), s = sym::real("s"); sym::eq((p + q)(x), ev(p, x) + ev(q, x), "sum"); sym::eq((p - q)(x), ev(p, x) - ev(q, x), "difference"); sym::eq((p * q)(x), ev(p, x) * ev(q, x), "product"); sym::obs("v", (p * q)(x)); sym::eq((-p)(x), -ev(p, x), "negation"); sym::eq((p + s)(x), ev(p, x) + s, "plus scalar"); sym::eq((s + p)(x), ev(p, x) + s, "scalar plus"); sym::eq((p - s)(x), ev(p, x) - s, "minus scalar"); sym::eq((s - p)(x), s - ev(p, x), "scalar minus"); sym::eq((p * s)(x), ev(p, x) * s, "times scalar"); sym::eq((s * p)(x), ev(p, x) * s, "scalar times"); if (s != 0) sym::eq((p / s)(x) * s, ev(p, x), "divided by scalar"); eqP(p * q, q * p, "commutes"); sym::check(p == p && !(p != p), "reflexive equality"); }
CASE(distrib) { P p = sP("p", 2), q = sP("q", 1), r = sP("r", 2); eqP(p * (q + r), p * q + p * r, "distributive"); eqP((p * q) * r, p * (q * r), "associative"); eqP(p - p, P::Zero(), "p - p = 0"); P c = p; eqP(c = c, p, "self assignment"); sym::obs("v", p[0]); }
CASE(equal) { int d = sym::pick(-1, 2, "d"), e = sym::pick(-1, 2, "e"); P p = sP("p", d), q = sP("q", e); bool same = true, close = true; for (int i = 0; i <= std::max(d, e); i++) { double a = p.coeff(i) - q.coeff(i); if (a != 0) same = false; if (a > 0.5 || a < -0.5) close = false; } sym::check((p == q) == same && (p != q) == !same && p.IsEqual(q) == same, "equality by coefficients"); sym::check(p.IsEqualTo(q, 0.5) == close, "approximate equality"); }
CASE(reduce) { int d = sym::pick(-1, 3, "d"); P p = sP("p", d), q = p; double x = sym::real("x"); double v = ev(p, x); q.Reduce(); sym::eq(q(x), v, "Reduce keeps the value"); sym::check(q.isNull() || q.leadingTerm() != 0, "Reduce leaves a nonzero leading coefficient"); sym::check(q == p, "Reduce keeps equality"); P r = p; r.Reduce(0.5); sym::check(r.isNull() || r.leadingTerm() >= 0.5 || r.leadingTerm() <= -0.5, "Reduce(eps)"); for (int i = 0; i <= d; i++) if (i > r.degree()) sym::check(p[i] < 0.5 && p[i] > -0.5, "Reduce(eps) only drops small coefficients"); else sym::eq(r[i], p[i], "Reduce(eps) keeps the rest"); }
CASEN(divmod, 0, 3, 3) { int e = sym::pick(-1, n, "e"); P u = sP("u", n), v = sP("v", e), q, r; int eff = e; while (eff >= 0 && v[eff] == 0) eff--; bool thrown = THROWS(DivisionByZeroError, P::poldiv(u, v, q, r)); sym::check(thrown == (eff < 0), "only the zero divisor is refused"); if (thrown) return; eqP(q * v + r, u, "u = q v + r"); sym::check(r.degree() < eff || (eff == 0 && r.degree() < 1), "remainder degree"); for (int i = eff; i <= r.degree(); i++) sym::eq(r[i], 0, "remainder has smaller degree"); sym::check(q.isNull() || q.leadingTerm() != 0, "quotient reduced"); sym::obs("u", u[0]); }
CASE(divsmall) { int a = sym::pick(-1, 2, "a"), e = sym::pick(a + 1, 4, "e"); P u = sP("u", a), v = sP("v", e), q, r; sym::assume(v[e] != 0); P::poldiv(u, v, q, r); eqP(r, u, "small dividend is the remainder"); sym::check(q == P::Zero(), "quotient is zero"); sym::obs("u", a < 0 ? 0 : u[0]); }
CASE(divalias) { P u = sP("u", 2), v = sP("v", 1), q, r; sym::assume(v[1] >= 0.5); P::poldiv(u, v, q, r); P a = u, b = v; P::poldiv(a, b, a, b); eqP(a, q, "quotient into the dividend"); eqP(b, r, "remainder into the divisor"); a = u; b = v; P::poldiv(a, b, b, a); eqP(b, q, "quotient into the divisor"); eqP(a, r, "remainder into the dividend"); sym::obs("q", u[0]); }
CASE(calc) { int d = sym::pick(-1, D(), "d"); P p = sP("p", d); P dp = p.derivative(), ip = p.integral(); for (int i = 0; i < d; i++) sym::eq(dp.coeff(i), (i + 1) * p[i + 1], "derivative coefficients"); sym::check(dp.degree() < std::max(d, 1), "derivative degree"); eqP(ip.derivative(), p, "derivative of the integral"); sym::eq(ip(0), 0, "integral vanishes at 0"); int e = sym::pick(0, 2, "e"); P q = sP("q", e); eqP((p * q).derivative(), dp * q + p * q.derivative(), "product rule"); eqP((p + q).derivative(), dp + q.derivative(), "sum rule"); sym::obs("v", ip(1)); }
CASE(derive) { int d = sym::pick(0, D(), "d"), m = sym::pick(1, 6, "m"); P p = sP("p", d), t = p; double x = sym::real("x"); Vector<Real> pd(m, 3.5); p.Derive(x, pd); for (int i = 0; i < m; i++) { sym::eq(pd[i], ev(t, x), "all derivatives at a point"); t = t.derivative(); } sym::obs("v", pd[0]); }
CASE(fit3) { int m = sym::pick(1, 3, "m"); std::vector<Real> x = sym::reals("x", m, -4, 4), y = sym::reals("y", m); bool dup = false; for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) if (x[i] == x[j]) dup = true; P p; bool thr = THROWS(ArgumentError, p = P::FromValues(x, y)); sym::check(thr == dup, "exactly duplicate abscissae are refused"); if (thr) return; sym::check(p.degree() == m - 1, "degree of the interpolant"); for (int i = 0; i < m; i++) sym::eq(p(x[i]), y[i], "interpolates its points"); sym::obs("c", p[0]); }
CASE(fit4) { double t = sym::real("t", -0.5, 0.5); std::vector<Real> x = {-2, -1, t, 1.5}, y = sym::reals("y", 4); P p = P::FromValues(x, y); for (int i = 0; i < 4; i++) sym::eq(p(x[i]), y[i], "interpolates its points"); }
CASE(fitexact) { int m = sym::pick(1, sym::deep() ? 6 : 5, "m"); P p = sP("p", m - 1); std::vector<Real> x, y; for (int i = 0; i < m; i++) { x.push_back((i * 3) % m - 1.0); y.push_back(0); } for (int i = 0; i < m; i++) { x[i] = i - 2.0; y[i] = ev(p, x[i]); } eqP(P::FromValues(x, y), p, "recovers the polynomial"); sym::obs("c", p[0]); }
CASE(fitbad) { int a = sym::pick(0, 3, "a"), b = sym::pick(0, 3, "b"); std::vector<Real> x, y; for (int i = 0; i < a; i++) x.push_back(i); for (int i = 0; i < b; i++) y.push_back(sym::real("y", i, -8, 8)); sym::check(THROWS(ArgumentError, P::FromValues(x, y)) == (a != b || a == 0), "size mismatch and empty input refused"); }
CASE(make) { double a = sym::real("a"), b = sym::real("b"), x = sym::real("x"); sym::eq(P::Linear(a, b)(x), a * x + b, "Linear"); sym::eq(P::Constant(a)(x), a, "Constant"); sym::eq(P::Zero()(x), 0, "Zero"); double t = 1; for (int d = 0; d <= 4; d++) { P m = P::Monomial(d); sym::eq(m(x), t, "Monomial"); sym::check(m.degree() == d, "Monomial degree"); t *= x; } P z = P::Zero(); eqP(z * z, z, "zero times zero"); P n; eqP(n * n, z, "empty times empty"); eqP(n * P::Linear(a, b), z, "empty times anything"); eqP(n + P::Linear(a, b), P::Linear(a, b), "empty plus anything"); P s = sP("s", 2); s.SetDegree(4); sym::check(s.degree() == 4 && s[3] == 0 && s[4] == 0, "SetDegree pads with zeros"); sym::obs("x", x); }
