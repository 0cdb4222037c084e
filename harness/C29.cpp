// BOUNDS: quadratics: every leading coefficient and every pair of real, complex-conjugate or (complex coefficients) arbitrary roots in [-8,8]; cubics: every Cardano pair (S,T), three real roots at every amplitude for 6 (thorough: 10) angles, every shift and leading coefficient; quartics: every biquadratic with real or imaginary roots, and 10 concrete root patterns at every scale in [0.5,4], shift in [-4,4] and leading coefficient; Laguerre: every real linear and multiples of one quadratic; companion matrix: every linear and quadratic; Bairstow: degrees 1 to 4 with every root, from the default start (degree <= 2, or a factor x^2+1) or from exact initial roots
// STUBS: csqrt, cabs and complex division are replaced by their textbook definitions in the symbolic build; the native replay uses the C library
// OUTSIDE: rounding; convergence of the iterative methods at higher degree; multiplicities within rounding distance
#include "cplx.h"
#include "h.h"
#include <vector>
#include "mml/base/Polynom.h"
#include "mml/algorithms/RootFinding/RootFindingPolynoms.h"
using namespace MML::RootFinding;
typedef std::complex<double> C;
static double ab_(double x) { return x < 0 ? -x : x; }
static double lead() { double a = sym::real("a", 0.25, 4); return sym::flag("neg") ? -a : a; }
static void is(const C &z, double re, double im, const char *l, double tol = 1e-6) { sym::eq(z.real(), re, l, tol); sym::eq(z.imag(), im, l, tol); }
// sums and products instead of an order of the roots
static void vieta2(const C &x, const C &y, C r, C s, const char *l, double tol = 1e-6) { C a = x + y, b = x * y, c = r + s, d = r * s; is(a, c.real(), c.imag(), l, tol); is(b, d.real(), d.imag(), l, tol); }
CASE(quadreal) { double a = lead(), r = sym::real("r", -8, 8), s = sym::real("s", -8, 8); C x, y; int n = SolveQuadratic(a, -a * (r + s), a * r * s, x, y); sym::obs("r", r); sym::check(n == 2, "two real roots"); sym::check(x.imag() == 0 && y.imag() == 0, "real"); sym::check(!((x.real() != x.real()) | (y.real() != y.real())), "numbers"); bool one = (ab_(x.real() - r) <= 1e-6) & (ab_(y.real() - s) <= 1e-6), two = (ab_(x.real() - s) <= 1e-6) & (ab_(y.real() - r) <= 1e-6); sym::check(one | two, "the roots"); }
CASE(quadzero) { double a = lead(); C x, y; int n = SolveQuadratic(a, 0.0, 0.0, x, y); sym::obs("a", a); sym::check(n == 2, "two real roots"); is(x, 0, 0, "double root at zero"); is(y, 0, 0, "double root at zero"); }
CASE(quadcomplex) { double a = lead(), u = sym::real("u", -8, 8), v = sym::real("v", 0.125, 8); C x, y; int n = SolveQuadratic(a, -2 * a * u, a * (u * u + v * v), x, y); sym::obs("u", u); sym::check(n == 0, "no real root"); double sg = a > 0 ? 1 : -1; is(x, u, sg * v, "first root"); is(y, u, -sg * v, "second root"); }
CASE(quadlinear) { double b = lead(), c = sym::real("c", -8, 8); C x, y; int n = SolveQuadratic(0.0, b, c, x, y); sym::obs("c", c); sym::check(n == 1, "one root of a linear equation"); sym::eq(x.real() * b, -c, "the root"); sym::check(SolveQuadratic(0.0, 0.0, c, x, y) == 0, "a constant has none"); }
CASE(quadcc) { C r(sym::real("rr", -4, 4), sym::real("ri", -4, 4)), s(sym::real("sr", -4, 4), 1.5); C x, y; SolveQuadratic(C(1.0), -(r + s), r * s, x, y); sym::obs("rr", r.real()); vieta2(x, y, r, s, "roots of a complex quadratic"); }
CASE(quadcl) { C b(sym::real("br", 0.5, 4), sym::real("bi", -4, 4)), c(sym::real("cr", -4, 4), sym::real("ci", -4, 4)), x, y; SolveQuadratic(C(0.0), b, c, x, y); C t = b * x + c; sym::obs("br", b.real()); is(t, 0, 0, "a complex linear equation"); }
// cubics from Cardano's numbers: one real root
CASEN(cubic1, 0, 1, 1) { double a = n ? lead() : 2, S = sym::real("S", -3, 3), T = sym::real("T", -3, 3), A = sym::real("A", -4, 4); sym::assume(S > T); double Q = -S * T, R = (S * S * S + T * T * T) / 2, B = (9 * Q + A * A) / 3, Cc = (9 * A * B - 2 * A * A * A - 54 * R) / 27; C x, y, z; int k = SolveCubic(a, a * A, a * B, a * Cc, x, y, z); sym::obs("S", S); sym::check(k == 1, "one real root"); const double h = std::sqrt(3.0) / 2; is(x, S + T - A / 3, 0, "real root"); is(y, -(S + T) / 2 - A / 3, h * (S - T), "complex root"); is(z, -(S + T) / 2 - A / 3, -h * (S - T), "its conjugate"); }
// three real roots from amplitude and angle
CASEN(cubic3, 0, 5, 9) { static const double KS[] = {0.55, 0.7, 0.8660254037844387, 0.9375, 0.985, 0.625, 0.75, 0.51, 0.8, 0.96}; double a = n % 2 ? lead() : 1, q = sym::real("q", 0.5, 2), k = KS[n], A = sym::real("A", -3, 3), s = std::sqrt(1 - k * k), R = q * q * q * (4 * k * k * k - 3 * k), Q = -q * q, B = (9 * Q + A * A) / 3, Cc = (9 * A * B - 2 * A * A * A - 54 * R) / 27; C x, y, z; int c = SolveCubic(a, a * A, a * B, a * Cc, x, y, z); sym::obs("q", q); sym::check(c == 3, "three real roots"); const double h = std::sqrt(3.0) / 2; is(x, 2 * q * k - A / 3, 0, "first root", 1e-5); is(y, 2 * q * (-k / 2 - h * s) - A / 3, 0, "second root", 1e-5); is(z, 2 * q * (-k / 2 + h * s) - A / 3, 0, "third root", 1e-5); }
CASE(cubiclow) { double r = sym::real("r", -8, 8), s = sym::real("s", -8, 8); C x, y, z; int n = SolveCubic(0.0, 1.0, -(r + s), r * s, x, y, z); sym::obs("r", r); sym::check(n == 2, "a quadratic"); vieta2(x, y, r, s, "its roots"); }
static const double PAT[][8] = { // re, im of four roots, sum of them zero is not required
  {1, 0, 2, 0, 3, 0, 5, 0}, {-3, 0, -1, 0, 0.5, 0, 4, 0}, {1, 1, 1, -1, -2, 0, 3, 0}, {0, 2, 0, -2, 1, 0.5, 1, -0.5}, {-1, 3, -1, -3, 2, 1, 2, -1}, {1, 0, -1, 0, 2, 0, 0, 0}, {0, 1, 0, -1, 4, 0, -1, 0}, {-2, 0, -1, 0, -0.5, 0, 6, 0}, {2, 0.5, 2, -0.5, 2.5, 0, -4, 0}, {3, 0, 1, 2, 1, -2, 0, 0}};
static void poly4(const double *p, double s, double t, double *c) { C r[4]; for (int i = 0; i < 4; i++) r[i] = C(p[2 * i], p[2 * i + 1]); C e1 = r[0] + r[1] + r[2] + r[3], e2 = 0, e3 = 0, e4 = r[0] * r[1] * r[2] * r[3]; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { e2 += r[i] * r[j]; for (int k = j + 1; k < 4; k++) e3 += r[i] * r[j] * r[k]; } double b[5] = {e4.real() * s * s * s * s, -e3.real() * s * s * s, e2.real() * s * s, -e1.real() * s, 1}; /* shift by t */ for (int i = 0; i < 5; i++) c[i] = b[i]; for (int i = 0; i < 4; i++) for (int j = 3; j >= i; j--) c[j] -= t * c[j + 1]; }
static void matches(const double *p, int m, double s, double t, const C *x, double tol = 1e-5) { bool used[4] = {}; for (int i = 0; i < m; i++) { int hit = -1; for (int j = 0; j < m && hit < 0; j++) if (!used[j]) { double dr = x[j].real() - t - s * p[2 * i], di = x[j].imag() - s * p[2 * i + 1]; if (dr <= tol && -dr <= tol && di <= tol && -di <= tol) hit = j; } sym::check(hit >= 0, "every root of the pattern is found"); if (hit >= 0) used[hit] = true; } }
CASEN(quartic, 0, 9, 9) { double s = sym::real("s", 0.5, 4), t = sym::real("t", -4, 4), a = n % 3 == 2 ? lead() : 1, c[5]; poly4(PAT[n], s, t, c); C x[4]; SolveQuartic(a * c[4], a * c[3], a * c[2], a * c[1], a * c[0], x[0], x[1], x[2], x[3]); sym::obs("s", s); matches(PAT[n], 4, s, t, x); }
CASEN(biquad, 0, 2, 2) { double p = sym::real("p", 0.25, 4), q = sym::real("q", 0.25, 4), t = sym::real("t", -4, 4); double u = n == 2 ? -p * p : p * p, v = n ? -q * q : q * q; double b[5] = {u * v, 0, -(u + v), 0, 1}; for (int i = 0; i < 4; i++) for (int j = 3; j >= i; j--) b[j] -= t * b[j + 1]; C x[4]; SolveQuartic(b[4], b[3], b[2], b[1], b[0], x[0], x[1], x[2], x[3]); sym::obs("p", p); C y[4]; for (int i = 0; i < 4; i++) y[i] = x[i] - t; vieta2(y[0] * y[0], y[2] * y[2], u, v, "squares of the roots", 1e-5); is(y[0] + y[1], 0, 0, "pairs of opposite roots", 1e-5); is(y[2] + y[3], 0, 0, "pairs of opposite roots", 1e-5); }
CASE(quarticlow) { double r = sym::real("r", -4, 4), s = sym::real("s", -4, 4); C x[4]; SolveQuartic(0.0, 0.0, 1.0, -(r + s), r * s, x[0], x[1], x[2], x[3]); sym::obs("r", r); vieta2(x[0], x[1], r, s, "a quadratic in disguise"); }
// iterative methods
static PolynomReal pol(std::initializer_list<double> c) { return PolynomReal(std::vector<Real>(c)); }
CASE(laguerre1) { double a = lead(), r = sym::real("r", -8, 8); auto v = LaguerreRoots(pol({-a * r, a})); sym::obs("r", r); sym::check(v.size() == 1, "one root"); is(v[0], r, 0, "root of a line"); }
CASE(laguerre2) { double a = lead(), r = sym::real("r", -8, 8); auto v = LaguerreRoots(pol({a * 0.5, -a, a})); sym::obs("a", a); sym::check(v.size() == 2, "two roots"); is(v[0], 0.5, 0.5, "first root"); is(v[1], 0.5, -0.5, "second root"); (void)r; }
CASEN(empty, 0, 2, 2) { double c = sym::real("c", 0.5, 8); sym::obs("c", c); PolynomReal p = pol({c}); sym::check((n == 0 ? LaguerreRoots(p) : n == 1 ? EigenvalueRoots(p) : BairstowRoots(p)).size() == 0, "a constant has no roots"); }
CASE(eigen1) { double a = lead(), r = sym::real("r", -8, 8); auto v = EigenvalueRoots(pol({-a * r, a})); sym::obs("r", r); sym::check(v.size() == 1, "one root"); is(v[0], r, 0, "root of a line"); }
CASE(eigen2) { double a = sym::real("a", 0.5, 2), r = sym::real("r", -4, 4), s = sym::real("s", -4, 4); sym::assume(r - s >= 0.5); auto v = EigenvalueRoots(pol({a * r * s, -a * (r + s), a})); sym::obs("r", r); sym::check(v.size() == 2, "two roots"); vieta2(v[0], v[1], r, s, "roots of a quadratic", 1e-5); }
CASE(eigen2c) { double u = sym::real("u", -4, 4), w = sym::real("w", 0.5, 4); auto v = EigenvalueRoots(pol({u * u + w * w, -2 * u, 1})); sym::obs("u", u); sym::check(v.size() == 2, "two roots"); vieta2(v[0], v[1], C(u, w), C(u, -w), "complex roots of a quadratic", 1e-5); }
CASE(bairstow1) { double a = lead(), r = sym::real("r", -8, 8); auto v = BairstowRoots(pol({-a * r, a})); sym::obs("r", r); sym::check(v.size() == 1, "one root"); is(v[0], r, 0, "root of a line"); }
CASE(bairstow2) { double a = sym::real("a", 0.5, 2), r = sym::real("r", -4, 4), s = sym::real("s", -4, 4); sym::assume(r > s); auto v = BairstowRoots(pol({a * r * s, -a * (r + s), a})); sym::obs("r", r); sym::check(v.size() == 2, "two roots"); is(v[0], r, 0, "larger root"); is(v[1], s, 0, "smaller root"); }
CASE(bairstow2c) { double u = sym::real("u", -4, 4), w = sym::real("w", 0.5, 4); auto v = BairstowRoots(pol({u * u + w * w, -2 * u, 1})); sym::obs("u", u); sym::check(v.size() == 2, "two roots"); is(v[0], u, w, "complex root"); is(v[1], u, -w, "its conjugate"); }
CASE(bairstow3) { double a = lead(), r = sym::real("r", -8, 8); auto v = BairstowRoots(pol({-a * r, a, -a * r, a})); sym::obs("r", r); sym::check(v.size() == 3, "three roots"); is(v[0], 0, 1, "i"); is(v[1], 0, -1, "-i"); is(v[2], r, 0, "the real root"); }
CASEN(bairstowinit, 3, 4, 4) { double u = sym::real("u", -4, 4), w = sym::real("w", 0.5, 4), r = sym::real("r", -4, 4), s = 1.5; double q[3] = {u * u + w * w, -2 * u, 1}; std::vector<Real> c; if (n == 3) c = {-r * q[0], q[0] - r * q[1], q[1] - r, 1}; else { double m[3] = {r * s, -(r + s), 1}; c.assign(5, 0.0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i + j] += q[i] * m[j]; } Vector<Complex> in(2); in[0] = C(u, w); in[1] = C(u, -w); auto v = BairstowRoots(PolynomReal(c), in); sym::obs("u", u); sym::check((int)v.size() == n, "all roots"); is(v[0], u, w, "the first given root"); is(v[1], u, -w, "the second"); if (n == 3) is(v[2], r, 0, "the remaining root"); else vieta2(v[2], v[3], r, s, "the remaining roots"); }
