// BOUNDS: polynomial degrees 0 to 7 (9 thorough) at every point of [-4,4]; Chebyshev series of 1 to 6 coefficients (8 thorough) with every coefficient in [-8,8], every domain [a,b] with width in [0.25,8], every evaluation point; approximation of every polynomial of degree below the number of coefficients, and of an uninterpreted function for the interpolation property
// OUTSIDE: rounding (the sampled cosines are the doubles the code uses), convergence rates for non-polynomial functions, std::sph_legendre, weights at the singular ends of the domain
#include "h.h"
#include "mml/base/Function.h"
#include "mml/base/Polynom.h"
#include "mml/base/ChebyshevPolynom.h"
#include "mml/algorithms/ChebyshevApproximation.h"
#include "mml/core/OrthogonalBasis.h"
#include "mml/core/OrthogonalBasis/ChebyshevBasis.h"
#include "mml/core/OrthogonalBasis/HermiteBasis.h"
#include "mml/core/OrthogonalBasis/LaguerreBasis.h"
#include "mml/core/OrthogonalBasis/LegendreBasis.h"
template <class B> static void recur(const B &b, int n, double x, double h0, const char *l) { double A, Bb, C, A0, B0, C0; b.RecurrenceCoefficients(n, A, Bb, C); double p0 = b.Evaluate(n - 1, x), p1 = b.Evaluate(n, x), p2 = b.Evaluate(n + 1, x); sym::obs("p", p2); sym::eq(p2, (A * x + Bb) * p1 + C * p0, "three-term recurrence", 1e-6); b.RecurrenceCoefficients(n - 1, A0, B0, C0); sym::eq(b.Normalization(0), h0, "norm of the constant"); sym::check(b.Normalization(n) > 0, "norms are positive"); sym::eq(b.Evaluate(0, x), 1, "degree zero is one"); double N0 = b.Normalization(n - 1); sym::eq(-C * A0 * N0, A * b.Normalization(n), "norms fit the recurrence (orthogonality)", 1e-6); }
// Chebyshev normalization needs c_1 with a_0 = 1 because T_1 = x T_0
CASEN(leg, 1, 6, 8) { double x = sym::real("x", -1, 1); LegendreBasis b; recur(b, n, x, 2, "Legendre"); sym::eq(b.Evaluate(n, 1), 1, "P(1) = 1"); sym::eq(b.Evaluate(n, -x), (n % 2 ? -1 : 1) * b.Evaluate(n, x), "parity"); sym::check(b.WeightFunction(x) == 1, "weight"); }
CASEN(her, 1, 6, 8) { double x = sym::real("x", -4, 4); HermiteBasis b; recur(b, n, x, std::sqrt(3.14159265358979323846), "Hermite"); sym::eq(b.Evaluate(n, -x), (n % 2 ? -1 : 1) * b.Evaluate(n, x), "parity"); sym::eq(b.Evaluate(1, x), 2 * x, "H1"); }
CASEN(lag, 1, 6, 8) { double x = sym::real("x", 0, 8); LaguerreBasis b; recur(b, n, x, 1, "Laguerre"); sym::eq(b.Evaluate(n, 0), 1, "L(0) = 1"); sym::eq(b.Evaluate(1, x), 1 - x, "L1"); }
CASEN(alag, 1, 5, 7) { double x = sym::real("x", 0, 8), al = sym::real("alpha", -0.75, 4); AssociatedLaguerreBasis b(al); LaguerreBasis l; double A, B, C; b.RecurrenceCoefficients(n, A, B, C); sym::obs("p", b.Evaluate(n + 1, x)); sym::eq(b.Evaluate(n + 1, x), (A * x + B) * b.Evaluate(n, x) + C * b.Evaluate(n - 1, x), "three-term recurrence", 1e-6); sym::eq(AssociatedLaguerreBasis(0).Evaluate(n, x), l.Evaluate(n, x), "alpha = 0 is the plain family", 1e-6); sym::check(sym_throws<std::invalid_argument>([&] { AssociatedLaguerreBasis c(-1 - x); }) == 1, "alpha not above -1 refused"); AssociatedLaguerreBasis two(2); double A0, B0, C0; two.RecurrenceCoefficients(n, A, B, C); two.RecurrenceCoefficients(n - 1, A0, B0, C0); sym::eq(-C * A0 * two.Normalization(n - 1), A * two.Normalization(n), "norms fit the recurrence (orthogonality)", 1e-6); sym::eq(two.Normalization(0), 2, "norm of the constant"); }
CASEN(phe, 1, 5, 7) { double x = sym::real("x", -4, 4); ProbabilistHermiteBasis b; sym::obs("x", x); sym::eq(b.Evaluate(0, x), 1, "He0"); sym::eq(b.Evaluate(1, x), x, "He1"); sym::eq(b.Evaluate(n + 1, x), x * b.Evaluate(n, x) - n * b.Evaluate(n - 1, x), "recurrence", 1e-6); sym::eq(b.Normalization(n), n * b.Normalization(n - 1), "norms fit the recurrence", 1e-6); }
CASEN(cheb, 1, 7, 9) { double x = sym::real("x", -4, 4); ChebyshevBasis T; ChebyshevBasisSecondKind U; double A, B, C; T.RecurrenceCoefficients(n, A, B, C); double t0 = T.Evaluate(n - 1, x), t1 = T.Evaluate(n, x), t2 = T.Evaluate(n + 1, x), u0 = U.Evaluate(n - 1, x), u1 = U.Evaluate(n, x), u2 = U.Evaluate(n + 1, x); sym::obs("t", t2); sym::eq(t2, (A * x + B) * t1 + C * t0, "T recurrence"); U.RecurrenceCoefficients(n, A, B, C); sym::eq(u2, (A * x + B) * u1 + C * u0, "U recurrence"); sym::eq(t1 * t1 - (x * x - 1) * u0 * u0, 1, "Pell identity T^2 - (x^2-1) U^2 = 1", 1e-6); sym::eq((1 - x * x) * u0, x * t1 - t2, "(1-x^2) U = x T - T"); sym::eq(2 * t1 * t1 - 1, ChebyshevT(2 * n, x), "T doubles", 1e-4); sym::eq(ChebyshevT(n, 1), 1, "T(1)"); sym::eq(ChebyshevT(n, -1), n % 2 ? -1 : 1, "T(-1)"); sym::eq(ChebyshevU(n, 1), n + 1, "U(1)"); sym::eq(T.Normalization(n) * 2, T.Normalization(0), "T norms"); }
CASEN(chebzero, 1, 6, 8) { double x = sym::real("x", -1, 1); ChebyshevBasis T; ChebyshevBasisSecondKind U; auto z = T.GetZeros(n), e = T.GetExtrema(n), w = U.GetZeros(n); auto r = ChebyshevRoots(n), s = ChebyshevExtrema(n); double p = 1, q = 1; for (int i = 0; i < n; i++) { p *= 2 * (x - z[i]); q *= 2 * (x - w[i]); sym::eq(z[i], r[i], "same roots"); } sym::obs("x", x); sym::eq(p / 2, ChebyshevT(n, x), "T is the product over its zeros", 1e-6); sym::eq(q, ChebyshevU(n, x), "U is the product over its zeros", 1e-6); for (int i = 0; i <= n; i++) { sym::eq(e[i], s[i], "same extrema"); sym::eq(ChebyshevT(n, e[i]), i % 2 ? -1 : 1, "T alternates at its extrema", 1e-6); } double t = ChebyshevT(n, x); sym::check(t <= 1.0000001 && t >= -1.0000001, "bounded by one on [-1,1]"); }
CASE(neg) { int n = sym::integer("n", -2147483647 - 1, -1); double x = sym::real("x", -1, 1); sym::obs("x", x); ChebyshevBasis T; ChebyshevBasisSecondKind U; LegendreBasis P; HermiteBasis H; LaguerreBasis L; AssociatedLaguerreBasis A(1); sym::check(THROWS(std::invalid_argument, T.Evaluate(n, x)) && THROWS(std::invalid_argument, U.Evaluate(n, x)) && THROWS(std::invalid_argument, P.Evaluate(n, x)) && THROWS(std::invalid_argument, H.Evaluate(n, x)) && THROWS(std::invalid_argument, L.Evaluate(n, x)) && THROWS(std::invalid_argument, A.Evaluate(n, x)) && THROWS(std::invalid_argument, P.Normalization(n)) && THROWS(std::invalid_argument, H.Normalization(n)) && THROWS(std::invalid_argument, L.Normalization(n)) && THROWS(std::invalid_argument, T.Normalization(n)), "negative degree refused"); sym::check(THROWS(ArgumentError, ChebyshevT(n, x)) && THROWS(ArgumentError, ChebyshevU(n, x)) && THROWS(std::invalid_argument, ChebyshevRoots(n)) && THROWS(std::invalid_argument, ChebyshevExtrema(n)) && THROWS(std::invalid_argument, T.GetZeros(n)), "negative degree refused"); }
// ---- Chebyshev series
struct Dom { double a, b, x, y; };
static Dom dom(bool full = true) { Dom d; d.a = sym::real("a", -4, 4); double w = full ? sym::real("w", 0.25, 8) : 2.5, t = sym::real("t", -1, 1); d.b = d.a + w; d.x = d.a + (t + 1) / 2 * w; d.y = t; return d; }
static double series(const Vector<Real> &c, int m, double y) { double s = 0.5 * c[0]; for (int j = 1; j < m; j++) s += c[j] * ChebyshevT(j, y); return s; }
CASEN(eval, 1, 6, 8) { Dom d = dom(); Vector<Real> c = sVec("c", n); ChebyshevApproximation f(c, d.a, d.b); sym::obs("c", c[0]); sym::eq(f(d.x), series(c, n, d.y), "sum of the series"); int m = sym::pick(1, n, "m"); sym::eq(f.Eval(d.x, m), series(c, m, d.y), "partial sum"); f.SetNumTerms(m); sym::eq(f(d.x), series(c, m, d.y), "truncated sum"); sym::check(f.NumTerms() == m && f.NumCoefficients() == n && f.degree() == n - 1 && f.TruncatedDegree() == m - 1 && f.DomainMin() == d.a && f.DomainMax() == d.b, "accessors"); } 
CASEN(topoly, 1, 6, 8) { Dom d = dom(); Vector<Real> c = sVec("c", n); ChebyshevApproximation f(c, d.a, d.b); int m = sym::pick(1, n, "m"); Polynom<Real> p = f.ToPolynomial(m); sym::obs("c", c[0]); sym::eq(p(d.y), series(c, m, d.y), "power form of the partial sum"); }
// S' and the antiderivative checked through the power form
static double dpoly(Polynom<Real> p, double y) { double s = 0; for (int i = p.degree(); i >= 1; i--) s = s * y + i * p[i]; return s; }
CASEN(deriv, 1, 6, 8) { Dom d = dom(false); Vector<Real> c = sVec("c", n); ChebyshevApproximation f(c, d.a, d.b), g = f.Derivative(); sym::obs("c", c[0]); sym::eq(g(d.x) * (d.b - d.a), 2 * dpoly(f.ToPolynomial(), d.y), "derivative of the series"); sym::check(g.DomainMin() == d.a && g.DomainMax() == d.b, "same domain"); }
CASEN(integ, 1, 5, 7) { Dom d = dom(false); Vector<Real> c = sVec("c", n); if (n > 1) c[n - 1] = 0; ChebyshevApproximation f(c, d.a, d.b), g = f.Integral(); sym::obs("c", c[0]); sym::eq(g(d.a), 0, "zero at the left end"); sym::eq(2 * dpoly(g.ToPolynomial(), d.y), (d.b - d.a) * f(d.x), "derivative of the integral is the series"); }
CASEN(truncate, 1, 5, 6) { Dom d = dom(false); Vector<Real> c = sVec("c", n); double th = sym::real("threshold", 0, 8); ChebyshevApproximation f(c, d.a, d.b); int m = f.Truncate(th); sym::obs("m", m); sym::check(m >= 1 && m <= n && m == f.NumTerms(), "term count"); for (int j = m; j < n; j++) sym::check(c[j] < th && c[j] > -th, "only small coefficients dropped"); if (m > 1) sym::check(!(c[m - 1] < th && c[m - 1] > -th), "as many as possible dropped"); double e = f(d.x) - series(c, n, d.y), bound = 0; for (int j = m; j < n; j++) bound += c[j] < 0 ? -c[j] : c[j]; if (n <= 3) sym::check(e <= bound + 1e-7 && -e <= bound + 1e-7, "error bounded by the dropped coefficients"); }
CASEN(approx, 1, 5, 7) { Dom d = dom(n < 4); double k[8]; for (int i = 0; i < n; i++) k[i] = sym::real("k", i, -2, 2); std::function<Real(Real)> p = [&](Real x) { double s = 0; for (int i = n - 1; i >= 0; i--) s = s * (x - d.a) + k[i]; return s; }; ChebyshevApproximation f(p, d.a, d.b, n); sym::obs("k", k[0]); sym::eq(f(d.x), p(d.x), "polynomials of lower degree reproduced", 1e-4); }
CASEN(interp, 1, 4, 5) { double a = -1, b = 3; RealFunctionFromStdFunc F([](Real x) { return sym::fn("F", x, -8, 8); }); ChebyshevApproximation f(F, a, b, n); sym::obs("c", f.Coefficient(0)); auto r = ChebyshevRoots(n); for (int i = 0; i < n; i++) { double x = r[i] * (0.5 * (b - a)) + 0.5 * (b + a); sym::eq(f(x), F(x), "exact at the nodes", 1e-6); } }
CASEN(frompoly, 0, 4, 5) { Dom d = dom(n < 3); std::vector<Real> k; for (int i = 0; i <= n; i++) k.push_back(sym::real("k", i, -2, 2)); if (n) sym::assume(far(k[n], 0.01)); Polynom<Real> p(k); ChebyshevApproximation f = ChebyshevApproximation::FromPolynomial(p, d.a, d.b); sym::obs("k", k[0]); sym::check(f.NumCoefficients() == n + 1, "degree plus one coefficients"); sym::eq(f(d.x), p(d.x), "polynomial reproduced", 1e-3); }
CASE(errs) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), x = sym::real("x", -8, 8); int n = sym::integer("n", -2147483647 - 1, 2147483647); std::function<Real(Real)> p = [](Real t) { return t; }; Vector<Real> c{1, 2, 3}; sym::obs("a", a); if (n <= 0) return; if (n > 3) n = 3; int bad = a >= b; sym::check(sym_throws<std::invalid_argument>([&] { ChebyshevApproximation f(p, a, b, n); }) == bad && sym_throws<std::invalid_argument>([&] { ChebyshevApproximation f(c, a, b); }) == bad, "empty domain refused"); }
CASE(dombad) { double x = sym::real("x", -8, 8); Vector<Real> c = sVec("c", 3); ChebyshevApproximation f(c, -1, 3); int m = sym::integer("m", -2147483647 - 1, 2147483647); sym::obs("c", c[0]); int out = x < -1 || x > 3; sym::check(sym_throws<std::domain_error>([&] { f(x); }) == out && sym_throws<std::domain_error>([&] { f.Eval(x, 2); }) == out, "points outside the domain refused"); int bm = m <= 0 || m > 3; sym::check(sym_throws<std::invalid_argument>([&] { f.SetNumTerms(m); }) == bm && sym_throws<std::invalid_argument>([&] { f.Eval(0, m); }) == (m <= 0 || m > f.NumTerms()) && sym_throws<std::out_of_range>([&] { f.Coefficient(m); }) == (m < 0 || m > 2) && sym_throws<std::invalid_argument>([&] { f.ToPolynomial(m); }) == bm, "term counts checked"); }
CASE(maxerr) { Vector<Real> c = sVec("c", 3); ChebyshevApproximation f(c, 0, 2); double s = sym::real("s", -4, 4); double e = f.MaxError([&](Real x) { return s * x; }, 3); sym::obs("e", e); double m = 0; for (int i = 0; i <= 3; i++) { double x = i * 2.0 / 3, d = f(x) - s * x; d = d < 0 ? -d : d; sym::check(e >= d - 1e-9, "no sampled error is larger"); m = d > m ? d : m; } sym::eq(e, m, "attained"); }
