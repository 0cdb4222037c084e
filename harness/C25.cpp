// BOUNDS: every pair of dual numbers with value and derivative part in [-8,8] (divisors and logarithm/root arguments at least 1/16 in size), every elementary function and operator of ForwardAD.h, compositions of two functions, rational expressions and gradients of up to 4 variables
// STUBS: elementary functions of the C library are uninterpreted functions with their defining identities
// OUTSIDE: rounding; points where a function is not differentiable
#include "h.h"
#include <vector>
#include <algorithm>
#include "mml/core/Derivation/ForwardAD.h"
typedef Symbolic::Dual<double> D;
static D dual(const char *a, const char *b, double lo = -8, double hi = 8) { return D(sym::real(a, lo, hi), sym::real(b, -8, 8)); }
static void is(const D &r, double v, double d, const char *lv, const char *ld) { sym::eq(r.value, v, lv); sym::eq(r.deriv, d, ld); }
CASE(ring) { D a = dual("a", "da"), b = dual("b", "db"), c = dual("c", "dc"); sym::obs("a", a.value); is(a + b, a.value + b.value, a.deriv + b.deriv, "sum", "sum rule"); is(a - b, a.value - b.value, a.deriv - b.deriv, "difference", "difference rule"); is(a * b, a.value * b.value, a.deriv * b.value + a.value * b.deriv, "product", "product rule"); is(-a, -a.value, -a.deriv, "negation", "derivative of the negation"); is(+a, a.value, a.deriv, "plus", "plus"); is(fma(a, b, c), a.value * b.value + c.value, a.deriv * b.value + a.value * b.deriv + c.deriv, "fma", "derivative of fma"); D z; is(z, 0, 0, "default is zero", "default is constant"); is(D(a.value), a.value, 0, "value", "a constant has derivative zero"); is(D(3), 3, 0, "integers are constants", "integers are constants"); }
CASE(quot) { D a = dual("a", "da"), b = dual("b", "db"); sym::assume(far(b.value, 0.0625)); D q = a / b; sym::obs("a", a.value); sym::eq(q.value * b.value, a.value, "quotient"); sym::eq(q.deriv * b.value * b.value, a.deriv * b.value - a.value * b.deriv, "quotient rule"); D e = a; e /= b; is(e, q.value, q.deriv, "compound quotient", "compound quotient rule"); D s = b; s /= s; is(s, 1, 0, "x/x", "derivative of x/x"); }
CASE(compound) { D a = dual("a", "da"), b = dual("b", "db"), x = a, y = a, z = a, w = a; x += b; y -= b; z *= b; w *= w; sym::obs("a", a.value); D s = a + b, d = a - b, p = a * b; is(x, s.value, s.deriv, "+=", "+="); is(y, d.value, d.deriv, "-=", "-="); is(z, p.value, p.deriv, "*=", "*="); is(w, a.value * a.value, 2 * a.value * a.deriv, "x *= x", "derivative of x *= x"); w = a; w += w; is(w, 2 * a.value, 2 * a.deriv, "x += x", "derivative of x += x"); w = a; w -= w; is(w, 0, 0, "x -= x", "derivative of x -= x"); }
CASE(scalar) { D a = dual("a", "da"); double k = sym::real("k", -8, 8); sym::assume(far(k, 0.0625) & far(a.value, 0.0625)); double v = a.value, d = a.deriv; sym::obs("a", v); is(a + k, v + k, d, "a+k", "a+k"); is(k + a, v + k, d, "k+a", "k+a"); is(a - k, v - k, d, "a-k", "a-k"); is(k - a, k - v, -d, "k-a", "k-a"); is(a * k, v * k, d * k, "a*k", "a*k"); is(k * a, v * k, d * k, "k*a", "k*a"); D q = a / k, r = k / a; sym::eq(q.value * k, v, "a/k"); sym::eq(q.deriv * k, d, "a/k"); sym::eq(r.value * v, k, "k/a"); sym::eq(r.deriv * v * v, -k * d, "k/a"); is(a + 2, v + 2, d, "integer operand", "integer operand"); is(3 * a, 3 * v, 3 * d, "integer operand", "integer operand"); }
CASE(cmp) { D a = dual("a", "da"), b = dual("b", "db"); double x = a.value, y = b.value; sym::obs("a", x); sym::check((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "comparisons look at the value only"); D m = abs(a); sym::eq(m.value, x < 0 ? -x : x, "absolute value"); if (x != 0) sym::eq(m.deriv, x < 0 ? -a.deriv : a.deriv, "derivative of the absolute value"); }
CASE(trig) { D x = dual("x", "dx", -1.5, 1.5); double s = std::sin(x.value), c = std::cos(x.value); sym::obs("x", x.value); is(sin(x), s, c * x.deriv, "sin", "sin' = cos"); is(cos(x), c, -s * x.deriv, "cos", "cos' = -sin"); sym::assume(far(c, 0.0625)); D t = tan(x); sym::eq(t.deriv * c * c, x.deriv, "tan' = 1/cos^2"); sym::eq(t.value, std::tan(x.value), "tan"); D p = sin(x) * sin(x) + cos(x) * cos(x); is(p, 1, 0, "sin^2+cos^2 = 1", "the derivative of a constant expression is zero"); }
CASE(hyp) { D x = dual("x", "dx", -4, 4); double s = std::sinh(x.value), c = std::cosh(x.value), t = std::tanh(x.value), e = std::exp(x.value); sym::obs("x", x.value); is(sinh(x), s, c * x.deriv, "sinh", "sinh' = cosh"); is(cosh(x), c, s * x.deriv, "cosh", "cosh' = sinh"); is(tanh(x), t, (1 - t * t) * x.deriv, "tanh", "tanh' = 1 - tanh^2"); is(exp(x), e, e * x.deriv, "exp", "exp' = exp"); }
CASE(logs) { D x = dual("x", "dx", 0.0625, 8); sym::obs("x", x.value); D l = log(x), g = log10(x), r = sqrt(x); sym::eq(l.value, std::log(x.value), "log"); sym::eq(l.deriv * x.value, x.deriv, "log' = 1/x"); sym::eq(g.value, std::log10(x.value), "log10"); sym::eq(g.deriv * x.value * std::log(10.0), x.deriv, "log10' = 1/(x ln 10)"); sym::eq(r.value * r.value, x.value, "sqrt"); sym::eq(2 * r.value * r.deriv, x.deriv, "sqrt' = 1/(2 sqrt)"); D q = r * r; is(q, x.value, x.deriv, "square of the root", "derivative of the square of the root"); }
CASE(arcs) { double w = sym::real("w", -0.9, 0.9), dx = sym::real("dx", -8, 8), u = (1 - w * w) / (1 + w * w), v = 2 * w / (1 + w * w); D x(v, dx), a = asin(x), b = acos(x); sym::obs("w", w); sym::eq(a.value, std::asin(v), "asin"); sym::eq(b.value, std::acos(v), "acos"); sym::eq(a.deriv * u, dx, "asin' = 1/sqrt(1-x^2)"); sym::eq(b.deriv * u, -dx, "acos' = -1/sqrt(1-x^2)"); D t = atan(x); sym::eq(t.value, std::atan(v), "atan"); sym::eq(t.deriv * (1 + v * v), dx, "atan' = 1/(1+x^2)"); }
CASE(atan2) { D y = dual("y", "dy"), x = dual("x", "dx"); double r2 = x.value * x.value + y.value * y.value; sym::assume(r2 >= 0.0625); D a = atan2(y, x); sym::obs("x", x.value); sym::eq(a.value, std::atan2(y.value, x.value), "atan2"); sym::eq(a.deriv * r2, x.value * y.deriv - y.value * x.deriv, "derivative of the angle"); }
CASE(round) { D x = dual("x", "dx"); sym::obs("x", x.value); is(floor(x), std::floor(x.value), 0, "floor", "floor is locally constant"); is(ceil(x), std::ceil(x.value), 0, "ceil", "ceil is locally constant"); }
CASEN(ipow, 0, 4, 6) { D x = dual("x", "dx"); if (sym::flag("constant exponent as dual")) { D r = pow(x, D(double(n))); double p = 1; for (int i = 0; i < n; i++) p *= x.value; sym::obs("x", x.value); double q = 1; for (int i = 1; i < n; i++) q *= x.value; is(r, p, n * q * x.deriv, "integer power", "power rule"); } else { D r = pow(x, n), s = pow(x, double(n)); double p = 1, q = 1; for (int i = 0; i < n; i++) p *= x.value; for (int i = 1; i < n; i++) q *= x.value; sym::obs("x", x.value); is(r, p, n * q * x.deriv, "integer power", "power rule"); is(s, p, n * q * x.deriv, "integer power", "power rule"); } }
CASE(rpow) { D x = dual("x", "dx", 0.0625, 8); double k = sym::real("k", -4, 4); D r = pow(x, k), s = pow(x, D(k)); sym::obs("x", x.value); sym::eq(r.value, std::pow(x.value, k), "real power"); sym::eq(r.deriv, k * std::pow(x.value, k - 1) * x.deriv, "power rule"); is(s, r.value, r.deriv, "constant dual exponent", "constant dual exponent"); }
CASE(epow) { double b = sym::real("b", 0.0625, 8); D e = dual("e", "de", -4, 4); D r = pow(b, e), s = pow(D(b), e); sym::obs("b", b); double p = std::pow(b, e.value), l = std::log(b); is(r, p, p * l * e.deriv, "exponential", "derivative of an exponential"); is(s, p, p * l * e.deriv, "constant dual base", "constant dual base"); }
CASE(gpow) { D b = dual("b", "db", 0.0625, 8), e = dual("e", "de", -4, 4); D r = pow(b, e); double p = std::pow(b.value, e.value), l = std::log(b.value); sym::obs("b", b.value); sym::eq(r.value, p, "power"); if (b.deriv != 0 && e.deriv != 0) sym::eq(r.deriv * b.value, p * (e.deriv * l * b.value + e.value * b.deriv), "derivative of f^g"); }
// rational expressions: the dual part is the formal derivative
CASEN(poly, 1, 5, 8) { double c[9], x = sym::real("x", -8, 8); for (int i = 0; i <= n; i++) c[i] = sym::real("c", i, -8, 8); auto f = [&](D t) { D s(0.0); for (int i = n; i >= 0; i--) s = s * t + c[i]; return s; }; auto r = Symbolic::derivative(f, x); double v = 0, d = 0; for (int i = n; i >= 0; i--) { d = d * x + v; v = v * x + c[i]; } sym::obs("x", x); sym::eq(r.first, v, "value"); sym::eq(r.second, d, "exact derivative of a polynomial"); }
CASE(rational) { double x = sym::real("x", -8, 8), a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); auto f = [&](D t) { return (a + t * t) / (t * t * t * t + 1) - b / (2 + t * t); }; auto r = Symbolic::derivative(f, x); double p = x * x, u = p * p + 1, w = 2 + p; sym::obs("x", x); sym::eq(r.first * u * w, (a + p) * w - b * u, "value"); sym::eq(r.second * u * u * w * w, (2 * x * u - (a + p) * 4 * p * x) * w * w + b * 2 * x * u * u, "exact derivative of a rational function"); }
CASEN(grad, 1, 3, 4) { std::vector<double> x(n); double a[4][4], b[4]; for (int i = 0; i < n; i++) { x[i] = sym::real("x", i, -4, 4); b[i] = sym::real("b", i, -4, 4); for (int j = 0; j < n; j++) a[i][j] = sym::real("a", i * 4 + j, -4, 4); } auto f = [&](const std::vector<D> &v) { D s(0.0), p(1.0); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) s += v[i] * v[j] * a[i][j]; s += v[i] * b[i]; p *= v[i]; } return s + p; }; std::vector<double> g = Symbolic::gradient(f, x); sym::obs("x", x[0]); sym::check((int)g.size() == n, "one entry per variable"); for (int i = 0; i < n; i++) { double e = b[i], p = 1; for (int j = 0; j < n; j++) { e += (a[i][j] + a[j][i]) * x[j]; if (j != i) p *= x[j]; } sym::eq(g[i], e + p, "gradient"); } }
// chain rule through two functions
CASE(chain) { D x = dual("x", "dx", -2, 2); double s = std::sin(x.value * x.value), c = std::cos(x.value * x.value), e = std::exp(s); sym::obs("x", x.value); is(exp(sin(x * x)), e, e * c * 2 * x.value * x.deriv, "exp(sin(x^2))", "chain rule"); D y = cos(3 * x + 1); is(y, std::cos(3 * x.value + 1), -3 * std::sin(3 * x.value + 1) * x.deriv, "cos(3x+1)", "chain rule"); }
