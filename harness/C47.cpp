// BOUNDS: every location, scale and probability for the distributions with closed forms; integer shapes up to 5 for the gamma, beta, chi-square and F families with the argument in the region where their expansions terminate; normal quantiles for every probability from 1e-12 to 1-1e-12; critical values for every level within 1e-8 of 26 anchors
// OUTSIDE: half-integer incomplete gamma and beta functions at symbolic arguments, quantiles by Newton iteration (t, gamma, beta) at probabilities other than the listed ones, except for the uniform case, the error function itself (uninterpreted, odd)
#include "h.h"
#include "mml/algorithms/Statistics/Distributions.h"
using namespace MML::Statistics; typedef StatisticsError SE;
static const double PI = 3.14159265358979323846;
#define S sym::real
// parameter validation
CASE(refuse) { double b = S("b", -4, 0), g = S("g", 0.125, 4), m = S("m", -4, 4); sym::obs("b", b); int k = sym::pick(-3, 0, "df"); sym::check(THROWS(SE, NormalDistribution{m, b}), "refused"); sym::check(THROWS(SE, CauchyDistribution{m, b}), "refused"); sym::check(THROWS(SE, ExponentialDistribution{b}), "refused"); sym::check(THROWS(SE, LogisticDistribution{m, b}), "refused"); sym::check(THROWS(SE, (UniformDistribution{m, m + b})), "refused"); sym::check(THROWS(SE, GammaDistribution{b, g}), "refused"); sym::check(THROWS(SE, GammaDistribution{g, b}), "refused"); sym::check(THROWS(SE, BetaDistribution{b, g}), "refused"); sym::check(THROWS(SE, BetaDistribution{g, b}), "refused"); sym::check(THROWS(SE, WeibullDistribution{b, g}), "refused"); sym::check(THROWS(SE, WeibullDistribution{g, b}), "refused"); sym::check(THROWS(SE, ParetoDistribution{b, g}), "refused"); sym::check(THROWS(SE, ParetoDistribution{g, b}), "refused"); sym::check(THROWS(SE, LogNormalDistribution{m, b}), "refused"); sym::check(THROWS(SE, TDistribution{k}), "refused"); sym::check(THROWS(SE, ChiSquareDistribution{k}), "refused"); sym::check(THROWS(SE, FDistribution(k, 2)), "refused"); sym::check(THROWS(SE, FDistribution(2, k)), "refused"); }
CASE(refusep) { double p = S("p", -4, 0), q = S("q", 1, 4), m = S("m", -4, 4), s = S("s", 0.125, 4); sym::obs("p", p); for (double v : {p, q}) { sym::check(THROWS(SE, NormalDistribution(m, s).inverseCdf(v)), "refused"); sym::check(THROWS(SE, StandardNormal::inverseCdf(v)), "refused"); sym::check(THROWS(SE, CauchyDistribution(m, s).inverseCdf(v)), "refused"); sym::check(THROWS(SE, LogisticDistribution(m, s).inverseCdf(v)), "refused"); for (int d : {1, 2, 5}) { sym::check(THROWS(SE, TDistribution(d).inverseCdf(v)), "refused"); sym::check(THROWS(SE, TDistribution(d).criticalValue(v)), "refused"); sym::check(THROWS(SE, ChiSquareDistribution(d).criticalValue(v)), "refused"); sym::check(THROWS(SE, FDistribution(d, 3).criticalValue(v)), "refused"); } } sym::check(THROWS(SE, ExponentialDistribution(s).inverseCdf(q)), "refused"); ExponentialDistribution E(s); if (p < 0) { sym::check(THROWS(SE, E.inverseCdf(p)), "refused"); sym::check(THROWS(SE, E.pdf(p)), "refused"); sym::check(THROWS(SE, E.cdf(p)), "refused"); sym::check(THROWS(SE, (UniformDistribution(m, m + s).inverseCdf(p))), "refused"); } if (q > 1) sym::check(THROWS(SE, (UniformDistribution(m, m + s).inverseCdf(q))), "refused");
  sym::check(GammaDistribution(s, s).inverseCdf(p) == 0 && WeibullDistribution(s, s).inverseCdf(p) == 0 && BetaDistribution(s, 2).inverseCdf(p) == 0 && LogNormalDistribution(m, s).inverseCdf(p) == 0 && ParetoDistribution(2, s).inverseCdf(p) == s, "lower end"); sym::check(std::isinf(GammaDistribution(s, s).inverseCdf(q)) && std::isinf(WeibullDistribution(s, s).inverseCdf(q)) && BetaDistribution(s, 2).inverseCdf(q) == 1 && std::isinf(LogNormalDistribution(m, s).inverseCdf(q)) && std::isinf(ParetoDistribution(2, s).inverseCdf(q)), "upper end");
  sym::check(GammaDistribution(s, s).cdf(p) == 0 && WeibullDistribution(s, s).cdf(p) == 0 && BetaDistribution(s, 2).cdf(p) == 0 && BetaDistribution(s, 2).cdf(q) == 1 && LogNormalDistribution(m, s).cdf(p) == 0 && ChiSquareDistribution(3).cdf(p) == 0 && FDistribution(3, 2).cdf(p) == 0, "cdf outside"); if (p < 0 && q > 1) sym::check(GammaDistribution(s, s).pdf(p) == 0 && WeibullDistribution(s, s).pdf(p) == 0 && BetaDistribution(s, 2).pdf(p) == 0 && BetaDistribution(s, 2).pdf(q) == 0 && LogNormalDistribution(m, s).pdf(p) == 0 && ChiSquareDistribution(3).pdf(p) == 0 && FDistribution(3, 2).pdf(p) == 0, "pdf outside"); }
CASE(edge) { double s = S("s", 0.125, 4), k = S("k", 0.125, 0.875), g = S("g", 1.125, 4); sym::obs("s", s); sym::check(std::isinf(GammaDistribution(k, s).pdf(0)) && std::isinf(WeibullDistribution(k, s).pdf(0)) && std::isinf(BetaDistribution(k, s).pdf(0)) && std::isinf(BetaDistribution(s, k).pdf(1)) && std::isinf(ChiSquareDistribution(1).pdf(0)) && std::isinf(FDistribution(1, 3).pdf(0)), "infinite"); sym::check(GammaDistribution(g, s).pdf(0) == 0 && WeibullDistribution(g, s).pdf(0) == 0 && BetaDistribution(g, s).pdf(0) == 0 && BetaDistribution(s, g).pdf(1) == 0 && ChiSquareDistribution(3).pdf(0) == 0 && FDistribution(3, 3).pdf(0) == 0, "zero"); sym::eq(GammaDistribution(1, s).pdf(0) * s, 1, "gamma 1"); sym::eq(WeibullDistribution(1, s).pdf(0) * s, 1, "weibull 1"); sym::eq(BetaDistribution(1, s).pdf(0), s, "beta 1"); sym::eq(BetaDistribution(s, 1).pdf(1), s, "beta end"); sym::eq(ChiSquareDistribution(2).pdf(0), 0.5, "chi 2"); sym::eq(FDistribution(2, 5).pdf(0), 1, "f 2"); }
// moments
CASE(moments) { double m = S("m", -4, 4), s = S("s", 0.125, 4), g = S("g", 0.125, 4); sym::obs("m", m); NormalDistribution N(m, s); sym::eq(N.mean(), m, "n mean"); sym::eq(N.variance(), s * s, "n var"); sym::eq(N.stddev(), s, "n sd"); ExponentialDistribution E(s); sym::eq(E.mean() * s, 1, "e mean"); sym::eq(E.variance() * s * s, 1, "e var"); LogisticDistribution L(m, s); sym::eq(L.mean(), m, "l mean"); sym::eq(L.variance(), PI * PI * s * s / 3, "l var"); UniformDistribution U(m, m + s); sym::eq(U.mean(), m + s / 2, "u mean"); sym::eq(U.variance(), s * s / 12, "u var"); GammaDistribution G(g, s); sym::eq(G.mean(), g * s, "g mean"); sym::eq(G.variance(), g * s * s, "g var"); BetaDistribution B(g, s); sym::eq(B.mean() * (g + s), g, "b mean"); sym::eq(B.variance() * (g + s) * (g + s) * (g + s + 1), g * s, "b var"); LogNormalDistribution X(m, s); sym::eq(std::log(X.median()), m, "x median"); sym::eq(std::log(X.mean()), m + s * s / 2, "x mean"); sym::eq(X.variance(), X.mean() * X.mean() * (std::exp(s * s) - 1), "x var"); WeibullDistribution W(1, s), W2(0.5, s); sym::eq(W.mean(), s, "w mean"); sym::eq(W.variance(), s * s, "w var"); sym::eq(W2.mean(), 2 * s, "w2 mean"); sym::eq(W2.variance(), 20 * s * s, "w2 var"); }
CASE(paretomoments) { double a = S("a", 0.125, 8), s = S("s", 0.125, 4); sym::obs("a", a); ParetoDistribution P(a, s); if (a <= 1) sym::check(THROWS(SE, P.mean()), "refused"); else sym::eq(P.mean() * (a - 1), a * s, "mean"); if (a <= 2) sym::check(THROWS(SE, P.variance()), "refused"); else sym::eq(P.variance() * (a - 1) * (a - 1) * (a - 2), a * s * s, "variance"); }
CASE(dfmoments) { int a = sym::pick(1, 7, "a"), b = sym::pick(1, 7, "b"); double s = S("s", 1, 2); sym::obs("s", s); TDistribution T(a); if (a < 2) sym::check(THROWS(SE, T.mean()), "refused"); else sym::eq(T.mean(), 0, "t mean"); if (a <= 2) sym::check(THROWS(SE, T.variance()), "refused"); else sym::eq(T.variance(), a / (a - 2.0), "t var"); ChiSquareDistribution C(a); sym::check(C.df() == a, "df"); sym::eq(C.mean(), a, "c mean"); sym::eq(C.variance(), 2 * a, "c var"); sym::eq(C.stddev() * C.stddev(), 2 * a, "c sd"); FDistribution F(a, b); sym::check(F.df1() == a && F.df2() == b, "dfs"); if (b <= 2) sym::check(THROWS(SE, F.mean()), "refused"); else sym::eq(F.mean(), b / (b - 2.0), "f mean"); if (b <= 4) sym::check(THROWS(SE, F.variance()), "refused"); else sym::eq(F.variance() * a * (b - 2) * (b - 2) * (b - 4), 2.0 * b * b * (a + b - 2), "f var"); }
// the normal family
CASE(normal) { double m = S("m", -4, 4), s = S("s", 0.125, 4), x = S("x", -8, 8), z = S("z", -6, 6); sym::obs("x", x); NormalDistribution N(m, s); sym::eq(N.zScore(N.fromZScore(z)), z, "z"); sym::eq(N.fromZScore(N.zScore(x)), x, "x"); double y = m + s * z; sym::eq(N.pdf(y) * s, StandardNormal::pdf(z), "pdf scale"); sym::eq(StandardNormal::pdf(z) * StandardNormal::pdf(z) * 2 * PI, std::exp(-z * z), "pdf"); sym::eq(N.cdf(y), StandardNormal::cdf(z), "cdf scale"); if (z != 0) sym::eq(N.cdf(y) + N.cdf(2 * m - y), 1, "symmetry"); sym::eq(2 * StandardNormal::cdf(z) - 1, std::erf(z / std::sqrt(2.0)), "erf"); sym::eq(StandardNormal::sf(z) + StandardNormal::cdf(z), 1, "sf"); sym::eq(StandardNormal::twoTailedPValue(z), 2 - 2 * StandardNormal::cdf(z < 0 ? -z : z), "two-tailed"); }
static double refz(double p) { double lo = -40, hi = 40; for (int i = 0; i < 200; i++) { double m = (lo + hi) / 2; (0.5 * std::erfc(-m / std::sqrt(2.0)) < p ? lo : hi) = m; } return (lo + hi) / 2; }
template <class F> static double lagrange(double x, double a, double b, int k, F f) { double r = 0; for (int i = 0; i < k; i++) { auto node = [&](int j) { return (a + b) / 2 + (b - a) / 2 * std::cos(PI * (2 * j + 1) / (2.0 * k)); }; double t = f(node(i)); for (int j = 0; j < k; j++) if (j != i) t = t * ((x - node(j)) / (node(i) - node(j))); r = r + t; } return r; }
// the central rational approximation against interpolated true quantiles, every p
CASEN(probit, 0, 19, 19) { double a = 0.02425 + n * (0.9515 / 20), b = n == 19 ? 0.9757 : a + 0.9515 / 20, p = S("p", a, b), m = S("m", -4, 4), s = S("s", 0.125, 4); sym::obs("p", p); double z = StandardNormal::inverseCdf(p); sym::eq(z, lagrange(p, a, b, n == 0 || n == 19 ? 12 : 9, refz), "quantile", 2e-7); sym::eq(NormalDistribution(m, s).inverseCdf(p), m + s * z, "scaled"); sym::eq(StandardNormal::inverseCdf(1 - p), -z, "symmetry"); }
CASEN(probittail, 0, 7, 7) { double a = 2.7276 + n * 0.5875, b = a + 0.5875, q = S("q", a, b), m = S("m", -4, 4), s = S("s", 0.125, 4), p = std::exp(-q * q / 2); sym::assume((p < 0.02425) & (p > 1e-16)); sym::obs("q", q); double z = StandardNormal::inverseCdf(p); sym::eq(z, lagrange(q, a, b, 7, [](double q) { return refz(std::exp(-q * q / 2)); }), "quantile", 2e-7); sym::eq(NormalDistribution(m, s).inverseCdf(p), m + s * z, "scaled"); sym::eq(StandardNormal::inverseCdf(1 - p), -z, "symmetry"); }
CASE(lognormal) { double m = S("m", -4, 4), s = S("s", 0.125, 4), z = S("z", -6, 6), p = S("p", 0.0009765625, 0.9990234375); sym::obs("p", p); LogNormalDistribution L(m, s); double y = m + s * z, x = std::exp(y); sym::eq(L.cdf(x), StandardNormal::cdf(z), "cdf"); sym::eq(L.pdf(x) * x * s, StandardNormal::pdf(z), "pdf"); sym::eq(std::log(L.inverseCdf(p)), NormalDistribution(m, s).inverseCdf(p), "quantile"); }
// closed forms
CASE(exponential) { double l = S("l", 0.125, 4), x = S("x", 0, 8), p = 1 - std::exp(-S("t", 0, 7)); sym::obs("x", x); ExponentialDistribution E(l); sym::eq(E.cdf(E.inverseCdf(p)), p, "round trip"); sym::eq(E.inverseCdf(E.cdf(x)), x, "inverse"); sym::eq(E.pdf(x), l * std::exp(-l * x), "pdf"); sym::eq(E.pdf(x) + l * E.cdf(x), l, "cdf"); }
CASE(logistic) { double m = S("m", -4, 4), s = S("s", 0.125, 4), z = sym::flag("s") ? S("z", 0, 6) : S("z", -6, -0.0009765625); sym::obs("z", z); LogisticDistribution L(m, s); double x = m + s * z, e = std::exp(-z), c = L.cdf(x); sym::eq(c * (1 + e), 1, "cdf"); sym::eq(L.pdf(x) * s, c * (1 - c), "pdf"); sym::eq(L.inverseCdf(1 / (1 + e)), x, "quantile"); sym::eq(L.inverseCdf(c), x, "round trip"); }
CASE(uniform) { double a = S("a", -4, 4), w = S("w", 0.125, 4), x = S("x", -8, 12), p = S("p", 0, 1), b = a + w; sym::obs("x", x); UniformDistribution U(a, b); sym::eq(U.cdf(U.inverseCdf(p)), p, "round trip"); bool in = (x >= a) & (x <= b); sym::eq(U.pdf(x) * w, in ? 1 : 0, "pdf"); sym::eq(U.cdf(x) * w, x < a ? 0 : x > b ? w : x - a, "cdf"); }
CASE(cauchy) { double m = S("m", -4, 4), s = S("s", 0.125, 4), x = S("x", -8, 8), p = S("p", 0.001, 0.999); sym::obs("x", x); CauchyDistribution C(m, s); double z = (x - m) / s; sym::eq(C.pdf(x) * PI * s * (1 + z * z), 1, "pdf"); double c = C.cdf(x); sym::eq(std::tan(PI * (c - 0.5)), z, "cdf", 1e-6); sym::check((c > 0) & (c < 1), "range"); sym::eq(C.inverseCdf(p), m + s * std::tan(PI * (p - 0.5)), "quantile"); }
CASE(cauchyround) { double m = S("m", -4, 4), s = S("s", 0.125, 4), x = S("x", -8, 8); sym::obs("x", x); CauchyDistribution C(m, s); sym::eq(C.inverseCdf(C.cdf(x)), x, "round trip", 1e-6); TDistribution T(1); sym::eq(std::tan(PI * (T.cdf(x) - 0.5)), x, "t1", 1e-6); double c = T.cdf(x); sym::check((c > -1e-9) & (c < 1 + 1e-9), "t1 range"); sym::assume((c > 0) & (c < 1)); sym::eq(T.inverseCdf(c), x, "t1 round trip", 1e-6); sym::eq(T.pdf(x) * PI * (1 + x * x), 1, "t1 pdf"); }
CASEN(weibull, 0, 2, 2) { double k = n == 0 ? 1 : n == 1 ? 2 : 0.5, s = S("s", 0.125, 4), y = S("y", 0.125, 3); sym::obs("y", y); WeibullDistribution W(k, s); double x = n == 2 ? s * y * y : s * y, t = n == 0 ? y : n == 1 ? y * y : y; sym::eq(W.cdf(x), 1 - std::exp(-t), "cdf"); sym::eq(W.pdf(x) * x, k * t * std::exp(-t), "pdf"); sym::eq(W.inverseCdf(1 - std::exp(-t)), x, "quantile"); sym::eq(W.inverseCdf(W.cdf(x)), x, "round trip"); }
CASEN(pareto, 0, 3, 3) { static const double K[] = {1, 2, 0.5, 3}; double k = K[n], s = S("s", 0.125, 4), y = S("y", 1, 8), p = S("p", 0.001, 0.999); sym::obs("p", p); ParetoDistribution P(k, s); if (n < 3) sym::eq(P.cdf(P.inverseCdf(p)), p, "round trip"); double x = n == 2 ? s * y * y : s * y, t = n == 0 ? y : n == 1 ? y * y : n == 2 ? y : y * y * y; sym::eq((1 - P.cdf(x)) * t, 1, "cdf"); sym::eq(P.pdf(x) * x * t, k, "pdf"); double u = S("u", -4, 4); if (u < s) sym::check(P.pdf(u) == 0 && P.cdf(u) == 0, "below"); }
// gamma functions of integer shape: the continued fraction terminates
static double poisson(int k, double x) { double t = 1, r = 0; for (int i = 0; i < k; i++) { r = r + t; t = t * x / (i + 1); } return r; }
CASEN(chicdf, 1, 5, 5) { double x = S("x", 2 * (n + 1) , 30); sym::obs("x", x); ChiSquareDistribution C(2 * n); double r = poisson(n, x / 2) * std::exp(-x / 2); sym::eq(C.rightTailPValue(x), r, "tail"); sym::eq(C.cdf(x), 1 - r, "cdf"); double f = 2; for (int i = 1; i < n; i++) f = f * 2 * i; double w = 1; for (int i = 1; i < n; i++) w = w * x; sym::eq(C.pdf(x) * f, w * std::exp(-x / 2), "pdf"); }
CASEN(gammacdf, 1, 5, 5) { double s = S("s", 0.125, 4), y = S("y", n + 1, 20); sym::obs("y", y); GammaDistribution G(n, s); double x = s * y; sym::eq(G.cdf(x), 1 - poisson(n, y) * std::exp(-y), "cdf"); double f = 1; for (int i = 1; i < n; i++) f = f * i; double w = 1; for (int i = 1; i < n; i++) w = w * y; sym::eq(G.pdf(x) * f * s, w * std::exp(-y), "pdf"); }
// the power series below the switch, in narrow intervals
CASEN(series, 0, 7, 7) { static const double A[] = {0.0625, 0.25, 0.5, 1, 1.5, 2, 2.5, 2.9375}; double y = S("y", A[n], A[n] + 0.001953125), s = S("s", 0.125, 4); int k = sym::pick(2, 4, "k"); sym::obs("y", y); double t = 1, r = 0; for (int j = 1; j < 26; j++) { t = t * y / j; if (j >= k) r = r + t; } r = r * std::exp(-y); sym::eq(GammaDistribution(k, s).cdf(s * y), r, "gamma"); sym::eq(ChiSquareDistribution(2 * k).cdf(2 * y), r, "chi-square"); }
// every quantile scales with the scale
CASE(gammascale) { int n = 1; static const double P[] = {0.001, 0.05, 0.5, 0.9, 0.9999}; double s = S("s", 0.0078125, 128), p = P[sym::pick(0, 4, "p")]; sym::obs("s", s); GammaDistribution G(n, s); double x = G.inverseCdf(p), y = x / s; sym::eq(1 - poisson(n, y) * std::exp(-y), p, "quantile"); }
// beta functions of integer parameters
static double binom(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static double ipow(double x, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * x; return r; }
static double betaI(double x, int a, int b) { double r = 0; int m = a + b - 1; for (int j = a; j <= m; j++) r = r + binom(m, j) * ipow(x, j) * ipow(1 - x, m - j); return r; }
CASEN(betacdf, 0, 8, 15) { int a = n < 9 ? n / 3 + 1 : (n - 9) / 2 + 1, b = n < 9 ? n % 3 + 1 : n % 2 + 4; double x = S("x", 0.0009765625, 0.9990234375); sym::obs("x", x); BetaDistribution B(a, b); sym::eq(B.cdf(x), betaI(x, a, b), "cdf"); sym::eq(B.pdf(x), a * binom(a + b - 1, a) * ipow(x, a - 1) * ipow(1 - x, b - 1), "pdf"); FDistribution F(2 * a, 2 * b); double f = b * x / (a * (1 - x)); sym::eq(F.cdf(f), betaI(x, a, b), "F cdf"); sym::eq(F.rightTailPValue(f), 1 - betaI(x, a, b), "F tail"); sym::eq(F.pdf(f) * b, B.pdf(x) * a * (1 - x) * (1 - x), "F pdf"); }
CASE(betauniform) { double p = S("p", 0.0009765625, 0.9990234375); sym::obs("p", p); BetaDistribution B(1, 1); sym::eq(B.inverseCdf(p), p, "quantile"); }
// Student's t
CASEN(tpdf, 0, 4, 6) { int nu = 2 * n + 1; double x = S("x", -8, 8), c = 1 / PI; for (int i = 1; i <= n; i++) c = c * 2 * i / (2 * i - 1); sym::obs("x", x); TDistribution T(nu); sym::eq(T.pdf(x) * std::sqrt((double)nu) * ipow(1 + x * x / nu, n + 1), c, "pdf"); sym::eq(T.pdf(-x), T.pdf(x), "even"); }
CASEN(tsmall, 1, 3, 4) { int nu = 2 * n; double x = S("x", -1, 1), w = std::sqrt(nu + x * x), s = x / w, q = 1 - s * s, t = 1, r = 0; sym::obs("x", x); for (int i = 0; i < n; i++) { r = r + t; t = t * q * (2 * i + 1) / (2 * i + 2); } TDistribution T(nu); sym::eq(T.cdf(x), 0.5 + s * r / 2, "cdf"); sym::eq(T.sf(x), 0.5 - s * r / 2, "tail"); sym::eq(T.twoTailedPValue(x), 1 - (x < 0 ? -s : s) * r, "two-tailed"); }
// critical values
template <class F> static void crit(double a0, F f, double tol = 4e-9) { double a = S("a", a0 * (1 - 1e-9), a0 * (1 + 1e-9)); sym::obs("a", a); double x = f.criticalValue(a); sym::check(x > 0, "positive"); sym::check(std::fabs(f.rightTailPValue(x) - a) <= tol, "tail"); }
static const double AL[] = {0.05, 0.01, 0.5, 1e-6, 0.95};
CASEN(chicrit, 0, 19, 24) { static const int D[] = {1, 2, 5, 30, 200}; crit(AL[n % 5], ChiSquareDistribution(D[n / 5])); }
CASEN(fcrit, 0, 9, 24) { static const int D[][2] = {{1, 1}, {2, 1}, {3, 7}, {10, 2}, {1, 30}}; crit(AL[n % 5], FDistribution(D[n / 5][0], D[n / 5][1])); }
// quantiles at fixed probabilities against the distribution function, with a symbolic level next to them
CASEN(tquant, 0, 4, 4) { static const int D[] = {2, 3, 4, 7, 30}; static const double P[] = {0.5, 0.6, 0.9, 0.975, 0.9999, 0.99999, 1e-5, 0.2}; double z = S("z", -1, 1); int i = sym::pick(0, 7, "p"); sym::obs("z", z); TDistribution T(D[n]); double q = T.inverseCdf(P[i]); sym::eq(T.cdf(q), P[i], "quantile", 1e-8); if (P[i] < 0.5) sym::eq(T.criticalValue(2 * P[i]), -q, "critical", 1e-4); }
CASEN(gammaquant, 0, 5, 5) { static const double A[] = {0.1, 0.3, 0.7, 1, 2.5, 7}; static const double P[] = {0.001, 0.05, 0.5, 0.95, 0.9999}, SC[] = {1e-12, 1, 1e6}; double z = S("z", -1, 1); int i = sym::pick(0, 4, "p"), j = sym::pick(0, 2, "scale"); sym::obs("z", z); GammaDistribution G(A[n], SC[j]); sym::eq(G.cdf(G.inverseCdf(P[i])), P[i], "quantile", 1e-8); }
CASEN(betaquant, 0, 7, 7) { static const double A[][2] = {{0.1, 2.5}, {0.3, 1}, {0.5, 0.5}, {1, 0.7}, {2, 3}, {2.5, 8}, {8, 2.5}, {30, 20}}; static const double P[] = {0.001, 0.05, 0.5, 0.8, 0.95}; double z = S("z", -1, 1); int i = sym::pick(0, 4, "p"); sym::obs("z", z); BetaDistribution B(A[n][0], A[n][1]); sym::eq(B.cdf(B.inverseCdf(P[i])), P[i], "quantile", 1e-8); }
