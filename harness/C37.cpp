// BOUNDS: every sample of 2-3 values per group (thorough 4), 2-3 groups, 2-3 categories and tables of 2x2 and 2x3 frequencies, every significance level; proportions of up to 8 trials
// STUBS: the t, chi-square, F and normal distribution functions are uninterpreted (any tail probability, any quantile)
// OUTSIDE: rounding, accuracy of the distribution functions, not-a-number values
#include "h.h"
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/Distributions.h"
namespace MML { namespace Statistics {
struct FakeT { int df; FakeT(int d) : df(d) {} double cdf(double x) const { return sym::fn("tF", df, x, 0, 1); } double sf(double x) const { return 1 - cdf(x); } double twoTailedPValue(double t) const { return 2 * (1 - cdf(std::abs(t))); } double inverseCdf(double p) const { return sym::fn("tQ", df, p, 0, 8); } double criticalValue(double a) const { return inverseCdf(1 - a / 2); } };
struct FakeC { int df; FakeC(int d) : df(d) {} double cdf(double x) const { return sym::fn("cF", df, x, 0, 1); } double rightTailPValue(double x) const { return 1 - cdf(x); } double criticalValue(double a) const { return sym::fn("cQ", df, a, 0, 16); } };
struct FakeF { int a, b; FakeF(int x, int y) : a(x), b(y) {} double cdf(double x) const { return sym::fn("fF", a * 100 + b, x, 0, 1); } double rightTailPValue(double x) const { return 1 - cdf(x); } double criticalValue(double al) const { return sym::fn("fQ", a * 100 + b, al, 0, 16); } };
struct FakeN { double m, s; FakeN(double a = 0, double b = 1) : m(a), s(b) {} static double q(double p) { return sym::fn("nQ", p, 0, 4); } double inverseCdf(double p) const { return m + s * q(p); } };
} }
#define TDistribution FakeT
#define ChiSquareDistribution FakeC
#define FDistribution FakeF
#define NormalDistribution FakeN
#include "mml/algorithms/Statistics/StatisticsHypothesis.h"
#include "mml/algorithms/Statistics/StatisticsConfidence.h"
namespace S = MML::Statistics;
typedef Vector<Real> V; typedef Matrix<Real> M; typedef S::HypothesisTestResult R;
static double mean(const V &v) { double s = 0; for (int i = 0; i < v.size(); i++) s = s + v[i]; return s / v.size(); }
static double ss(const V &x) { int n = x.size(); double s = 0, m = mean(x); for (int i = 0; i < n; i++) s = s + (x[i] - m) * (x[i] - m); return s; }
static double level() { return sym::real("al", 0.001, 0.999); }
static void common(const R &r, double al, int df, const char *name) { sym::eq(r.confidenceLevel, 1 - al, "confidence level"); sym::check(r.degreesOfFreedom == df, "degrees of freedom"); sym::check(r.testName == name, "test name"); }
// the statistic is signed: t = d / sqrt(se2)
static void tCheck(const R &r, double d, double se2, double al, int df, const char *name, bool dfs = true) { if (dfs) common(r, al, df, name); double t = r.testStatistic; sym::eq(t * t * se2, d * d, "test statistic", 1e-6); sym::check(t * d > -1e-9, "sign of the statistic"); S::FakeT T(df); double c = T.criticalValue(al); sym::eq(r.pValue, T.twoTailedPValue(t), "two-tailed p-value"); sym::eq(r.criticalValue, c, "critical value"); sym::check((!r.rejectNull | (std::abs(t) >= c - 1e-9)) & (r.rejectNull | (std::abs(t) <= c + 1e-9)), "reject beyond the critical value"); }
static void tConst(const R &r, double d, double al, int df, const char *name) { common(r, al, df, name); if (d == 0) { sym::check(!r.rejectNull, "equal constants are not rejected"); sym::eq(r.testStatistic, 0, "equal constants"); sym::eq(r.pValue, 1, "equal constants"); } else { sym::check(r.rejectNull, "different constants are rejected"); sym::eq(r.pValue, 0, "different constants"); sym::check(r.testStatistic * d > 0, "sign for different constants"); } }
static void same(const S::HypothesisTestDetailedResult &d, const R &r, const char *alg) { sym::check(d.status == AlgorithmStatus::Success && d.algorithm_name == alg && d.testName == r.testName && d.degreesOfFreedom == r.degreesOfFreedom && d.rejectNull == r.rejectNull, "detailed result"); sym::eq(d.testStatistic, r.testStatistic, "detailed result"); sym::eq(d.pValue, r.pValue, "detailed result"); sym::eq(d.criticalValue, r.criticalValue, "detailed result"); sym::eq(d.confidenceLevel, r.confidenceLevel, "detailed result"); }
static V shape(int n, int which, double k, double c) { static const double P[3][4] = {{0, 1, 3, -1}, {2, -1, 0, 0}, {0, 0, 1, 1}}; V v(n); if (which == 2 && n == 2) return V{c, c + k}; for (int i = 0; i < n; i++) v[i] = k * P[which][i] + c; return v; }
CASEN(one, 2, 3, 4) { V x = n < 4 ? sVec("x", n, -4, 4) : shape(n, 0, sym::real("k", -4, 4), sym::real("c", -4, 4)); double mu = sym::real("mu", -4, 4), al = level(); sym::obs("mu", mu); double q = ss(x), d = mean(x) - mu; sym::assume(sep(d) & sep(x[1] - x[0]) & sep(x[n - 1] - x[0])); auto r = S::OneSampleTTest(x, mu, al); if (q == 0) { sym::reach("constant"); tConst(r, d, al, n - 1, "One-Sample t-Test"); } else tCheck(r, d, q / (n * (n - 1.)), al, n - 1, "One-Sample t-Test"); same(S::OneSampleTTestDetailed(x, mu, al), r, "OneSampleTTest"); }
CASEN(paired, 2, 3, 4) { V x = sVec("x", n, -4, 4), y(n), z = n < 4 ? sVec("z", n, -4, 4) : shape(n, 1, sym::real("k", -4, 4), sym::real("c", -4, 4)); double al = level(); for (int i = 0; i < n; i++) y[i] = x[i] + z[i]; sym::obs("x", x[0]); double q = ss(z), d = mean(z); sym::assume(sep(d) & sep(z[1] - z[0]) & sep(z[n - 1] - z[0])); auto r = S::PairedTTest(x, y, al); if (q == 0) { sym::reach("constant"); tConst(r, d, al, n - 1, "Paired t-Test"); } else tCheck(r, d, q / (n * (n - 1.)), al, n - 1, "Paired t-Test"); same(S::PairedTTestDetailed(x, y, al), r, "PairedTTest");
  auto c = S::ConfidenceIntervalPairedDifference(x, y, 1 - al); double e = S::FakeT(n - 1).criticalValue(al); sym::eq(c.estimate, d, "estimate"); sym::eq(c.marginOfError * c.marginOfError * n * (n - 1.), e * e * q, "margin", 1e-6); sym::check(c.marginOfError >= 0, "margin is not negative"); sym::eq(c.lowerBound, d - c.marginOfError, "lower bound"); sym::eq(c.upperBound, d + c.marginOfError, "upper bound"); }
CASEN(two, 0, 3, 5) { int n1 = 2 + n % 2, n2 = 2 + n / 2; double al = level(); V x = shape(n1, 0, sym::real("k1", -4, 4), sym::real("c1", -4, 4)), y = shape(n2, 1, n == 3 ? 0.75 : sym::real("k2", -4, 4), sym::real("c2", -4, 4)); sym::obs("x", x[0]); double q = ss(x) + ss(y), d = mean(x) - mean(y); sym::assume(sep(d) & sep(x[1] - x[0]) & sep(y[1] - y[0])); auto r = S::TwoSampleTTest(x, y, al); if (q == 0) { sym::reach("constant"); tConst(r, d, al, n1 + n2 - 2, "Two-Sample t-Test (Pooled)"); } else tCheck(r, d, q / (n1 + n2 - 2) * (1. / n1 + 1. / n2), al, n1 + n2 - 2, "Two-Sample t-Test (Pooled)"); same(S::TwoSampleTTestDetailed(x, y, al), r, "TwoSampleTTest"); }
CASEN(welch, 0, 3, 5) { int n1 = 2 + n % 2, n2 = 2 + n / 2; double al = level(); V x = shape(n1, 0, sym::real("k1", -4, 4), sym::real("c1", -4, 4)), y = shape(n2, 1, 0.75, 0); if (sym::flag("const")) y = V(n2, 0.5); sym::obs("x", x[0]); double a = ss(x) / (n1 * (n1 - 1.)), b = ss(y) / (n2 * (n2 - 1.)), q = a + b, d = mean(x) - mean(y); sym::assume(sep(d) & sep(x[1] - x[0])); auto r = S::WelchTTest(x, y, al); same(S::WelchTTestDetailed(x, y, al), r, "WelchTTest"); if (q == 0) { sym::reach("constant"); sym::check(r.rejectNull == (d != 0), "constant samples"); sym::eq(r.pValue, d == 0 ? 1 : 0, "constant samples"); return; } int df = r.degreesOfFreedom; double den = a * a / (n1 - 1) + b * b / (n2 - 1); sym::check((df * den <= q * q * 1.0000001) & ((df + 1) * den >= q * q * 0.9999999), "degrees of freedom are those of Welch and Satterthwaite, rounded down"); sym::eq(r.confidenceLevel, 1 - al, "confidence level"); sym::check(r.testName == "Welch's t-Test (Unequal Variances)", "test name"); tCheck(r, d, q, al, df, "", false); }
static void chi(const R &r, double x, double al, int df, const char *name) { common(r, al, df, name); sym::eq(r.testStatistic, x, "test statistic", 1e-6); S::FakeC C(df); double c = C.criticalValue(al); sym::eq(r.pValue, C.rightTailPValue(r.testStatistic), "right-tail p-value"); sym::eq(r.criticalValue, c, "critical value"); sym::check((!r.rejectNull | (x >= c - 1e-6)) & (r.rejectNull | (x <= c + 1e-6)), "reject beyond the critical value"); }
CASEN(fit, 2, 3, 4) { V o = sVec("o", n, 0, 8), e = sVec("e", n, 0.25, 8); double al = level(), so = 0, se = 0; for (int i = 0; i + 1 < n; i++) so = so + o[i], se = se + e[i]; e[n - 1] = so + o[n - 1] - se; sym::assume(e[n - 1] >= 0.25); sym::obs("o", o[0]); double x = 0; for (int i = 0; i < n; i++) x = x + (o[i] - e[i]) * (o[i] - e[i]) / e[i]; auto r = S::ChiSquareGoodnessOfFit(o, e, al); chi(r, x, al, n - 1, "Chi-Square Goodness-of-Fit"); same(S::ChiSquareGoodnessOfFitDetailed(o, e, al), r, "ChiSquareGoodnessOfFit"); V e2 = e; double off = sym::real("off", 0.01, 4); e2[0] = e[0] + off; sym::check(THROWS(StatisticsError, S::ChiSquareGoodnessOfFit(o, e2, al)), "different totals are refused"); V o2 = o; o2[n - 1] = -off; sym::check(THROWS(StatisticsError, S::ChiSquareGoodnessOfFit(o2, e, al)), "negative counts are refused"); e2 = e; e2[n - 1] = -off + 0.01; sym::check(THROWS(StatisticsError, S::ChiSquareGoodnessOfFit(o, e2, al)), "expected counts that are not positive are refused"); }
CASEN(table, 0, 1, 2) { int r = n == 2 ? 3 : 2, c = 2 + n % 2; M t(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t(i, j) = n == 1 && i + j > 1 ? 2 + i : n == 2 && i + j != 0 && i != 2 ? 1 + j : sym::real("t", i * c + j, 0, 8); double al = level(), g = 0; V a(r, 0.), b(c, 0.); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a[i] = a[i] + t(i, j), b[j] = b[j] + t(i, j), g = g + t(i, j); bool ok = true; for (int i = 0; i < r; i++) { sym::assume((a[i] == 0) | (a[i] >= 0.25)); if (a[i] == 0) ok = false; } for (int j = 0; j < c; j++) { sym::assume((b[j] == 0) | (b[j] >= 0.25)); if (b[j] == 0) ok = false; } sym::obs("t", t(0, 0)); if (!ok) { sym::reach("empty"); sym::check(THROWS(StatisticsError, S::ChiSquareIndependence(t, al)), "an empty row or column is refused"); return; } double x = -g; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x = x + g * t(i, j) * t(i, j) / (a[i] * b[j]); auto q = S::ChiSquareIndependence(t, al); chi(q, x, al, (r - 1) * (c - 1), "Chi-Square Independence Test"); same(S::ChiSquareIndependenceDetailed(t, al), q, "ChiSquareIndependence"); int k = sym::pick(0, r * c - 1, "bad"); t(k / c, k % c) = -sym::real("z", 0.001, 8); sym::check(THROWS(StatisticsError, S::ChiSquareIndependence(t, al)), "negative counts are refused"); }
CASEN(anova, 0, 2, 4) { static const int N[5][3] = {{2, 2, 0}, {2, 3, 0}, {2, 2, 2}, {3, 3, 2}, {4, 2, 3}}; std::vector<V> g; int k = 0, T = 0; double al = level(); for (; k < 3 && N[n][k]; k++) { g.push_back(shape(N[n][k], k, k < 2 ? sym::real("k", k, -4, 4) : 0.5, sym::real("c", k, -4, 4))); T += N[n][k]; } sym::obs("x", g[0][0]); double w = 0, gm = 0, b = 0; for (auto &v : g) { sym::assume(sep(v[1] - v[0])); w = w + ss(v); gm = gm + mean(v) * v.size() / T; } for (auto &v : g) b = b + v.size() * (mean(v) - gm) * (mean(v) - gm); sym::assume((b == 0) | (b > 1e-6)); auto r = S::OneWayANOVA(g, al); same(S::OneWayANOVADetailed(g, al), r, "OneWayANOVA"); common(r, al, k - 1, "One-Way ANOVA"); if (w == 0) { sym::reach("constant"); sym::check(r.rejectNull == (b > 0), "constant groups"); sym::eq(r.pValue, b > 0 ? 0 : 1, "constant groups"); return; } sym::eq(r.testStatistic * w * (k - 1), b * (T - k), "ratio of the mean squares", 1e-5); S::FakeF F(k - 1, T - k); double c = F.criticalValue(al), x = r.testStatistic; sym::eq(r.pValue, F.rightTailPValue(x), "right-tail p-value"); sym::eq(r.criticalValue, c, "critical value"); sym::check((!r.rejectNull | (x >= c - 1e-9)) & (r.rejectNull | (x <= c + 1e-9)), "reject beyond the critical value"); }
template <class C> static void ci(const C &c, double est, double se2, double crit, double lv, const char *name, bool clamp = false) { sym::eq(c.estimate, est, "estimate"); sym::eq(c.marginOfError * c.marginOfError, crit * crit * se2, "margin of error", 1e-6); sym::check(c.marginOfError >= -1e-12, "margin is not negative"); double lo = est - c.marginOfError, hi = est + c.marginOfError; if (clamp) { if (lo < 0) lo = 0; if (hi > 1) hi = 1; } sym::eq(c.lowerBound, lo, "lower bound"); sym::eq(c.upperBound, hi, "upper bound"); sym::eq(c.confidenceLevel, lv, "confidence level"); sym::check(c.parameter == name, "parameter"); }
template <class C> static void alg(const C &c, const char *name) { sym::check(c.status == AlgorithmStatus::Success && c.algorithm_name == name, "detailed result"); }
CASEN(cimean, 2, 4, 5) { V x = n < 4 ? sVec("x", n, -4, 4) : sVec("x", n, -1, 1); double al = level(); sym::obs("x", x[0]); double crit = S::FakeT(n - 1).criticalValue(al), q = ss(x) / (n * (n - 1.)); ci(S::ConfidenceIntervalMean(x, 1 - al), mean(x), q, crit, 1 - al, "Mean"); auto d = S::ConfidenceIntervalMeanDetailed(x, 1 - al); ci(d, mean(x), q, crit, 1 - al, "Mean"); alg(d, "ConfidenceIntervalMean"); }
CASEN(cidiff, 0, 3, 5) { int n1 = 2 + n % 2, n2 = 2 + n / 2; double al = level(); V x = sVec("x", n1, -4, 4), y = sVec("y", n2, -4, 4); sym::obs("x", x[0]); double q = (ss(x) + ss(y)) / (n1 + n2 - 2) * (1. / n1 + 1. / n2), d = mean(x) - mean(y), crit = S::FakeT(n1 + n2 - 2).criticalValue(al); ci(S::ConfidenceIntervalMeanDifference(x, y, 1 - al), d, q, crit, 1 - al, "Mean Difference"); auto e = S::ConfidenceIntervalMeanDifferenceDetailed(x, y, 1 - al); ci(e, d, q, crit, 1 - al, "Mean Difference"); alg(e, "ConfidenceIntervalMeanDifference"); if (n1 == n2) { auto p = S::ConfidenceIntervalPairedDifferenceDetailed(x, y, 1 - al); sym::eq(p.estimate, -d, "after minus before"); alg(p, "ConfidenceIntervalPairedDifference"); } }
CASEN(ciprop, 1, 8, 12) { double al = level(), z = S::FakeN::q(1 - al / 2); int k = sym::pick(0, n, "k"); double p = (double)k / n, q = p * (1 - p) / n; sym::obs("p", p); ci(S::ConfidenceIntervalProportion(k, n, 1 - al), p, q, z, 1 - al, "Proportion", true); auto d = S::ConfidenceIntervalProportionDetailed(k, n, 1 - al); ci(d, p, q, z, 1 - al, "Proportion", true); alg(d, "ConfidenceIntervalProportion"); int m = 9 - n > 0 ? 9 - n : 3, j = sym::pick(0, m, "j"); double p2 = (double)j / m; ci(S::ConfidenceIntervalProportionDifference(k, n, j, m, 1 - al), p - p2, q + p2 * (1 - p2) / m, z, 1 - al, "Proportion Difference"); auto e = S::ConfidenceIntervalProportionDifferenceDetailed(k, n, j, m, 1 - al); ci(e, p - p2, q + p2 * (1 - p2) / m, z, 1 - al, "Proportion Difference"); alg(e, "ConfidenceIntervalProportionDifference"); }
CASE(refused) { double x = sym::real("x"), off = sym::real("off", 0, 4); V e(0), o{x}, t{1., 2.}, u{1., 2., 4.}; M T(2, 2, 1.), T1(1, 2, 1.), Z(2, 2, 0.); double bad[2] = {-off, 1 + off}; std::vector<V> g{t, u};
#define NO(c) sym::check(THROWS(StatisticsError, c), "refused: " #c)
  NO(S::OneSampleTTest(o, 0)); NO(S::OneSampleTTest(e, 0)); NO(S::TwoSampleTTest(o, t)); NO(S::TwoSampleTTest(t, o)); NO(S::WelchTTest(o, t)); NO(S::WelchTTest(t, o)); NO(S::PairedTTest(t, u)); NO(S::PairedTTest(o, o)); NO(S::ChiSquareGoodnessOfFit(o, o)); NO(S::ChiSquareGoodnessOfFit(t, u)); NO(S::ChiSquareIndependence(T1)); NO(S::ChiSquareIndependence(Z)); NO(S::OneWayANOVA(std::vector<V>{t})); NO(S::OneWayANOVA(std::vector<V>{t, o})); NO(S::ConfidenceIntervalMean(o)); NO(S::ConfidenceIntervalMeanDifference(o, t)); NO(S::ConfidenceIntervalMeanDifference(t, o)); NO(S::ConfidenceIntervalPairedDifference(t, u)); NO(S::ConfidenceIntervalPairedDifference(o, o)); NO(S::ConfidenceIntervalProportion(1, 0)); NO(S::ConfidenceIntervalProportion(-1, 2)); NO(S::ConfidenceIntervalProportion(3, 2)); NO(S::ConfidenceIntervalProportionDifference(1, 0, 1, 2)); NO(S::ConfidenceIntervalProportionDifference(1, 2, 1, 0)); NO(S::ConfidenceIntervalProportionDifference(3, 2, 1, 2)); NO(S::ConfidenceIntervalProportionDifference(1, 2, -1, 2));
  for (double b : bad) { NO(S::OneSampleTTest(t, 0, b)); NO(S::TwoSampleTTest(t, u, b)); NO(S::WelchTTest(t, u, b)); NO(S::PairedTTest(t, t, b)); NO(S::ChiSquareGoodnessOfFit(t, t, b)); NO(S::ChiSquareIndependence(T, b)); NO(S::OneWayANOVA(g, b)); NO(S::ConfidenceIntervalMean(t, b)); NO(S::ConfidenceIntervalMeanDifference(t, u, b)); NO(S::ConfidenceIntervalPairedDifference(t, t, b)); NO(S::ConfidenceIntervalProportion(1, 2, b)); NO(S::ConfidenceIntervalProportionDifference(1, 2, 1, 2, b)); }
  S::StatisticsConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus;
#define ST(c) { auto r = c; sym::check(r.status != AlgorithmStatus::Success && !r.error_message.empty(), "failure is reported: " #c); }
  ST(S::OneSampleTTestDetailed(o, 0, 0.05, c)) ST(S::TwoSampleTTestDetailed(o, t, 0.05, c)) ST(S::WelchTTestDetailed(o, t, 0.05, c)) ST(S::PairedTTestDetailed(o, o, 0.05, c)) ST(S::ChiSquareGoodnessOfFitDetailed(o, o, 0.05, c)) ST(S::ChiSquareIndependenceDetailed(Z, 0.05, c)) ST(S::OneWayANOVADetailed(std::vector<V>{t}, 0.05, c)) ST(S::ConfidenceIntervalMeanDetailed(o, 0.95, c)) ST(S::ConfidenceIntervalMeanDifferenceDetailed(o, t, 0.95, c)) ST(S::ConfidenceIntervalPairedDifferenceDetailed(o, o, 0.95, c)) ST(S::ConfidenceIntervalProportionDetailed(3, 2, 0.95, c)) ST(S::ConfidenceIntervalProportionDifferenceDetailed(3, 2, 1, 2, 0.95, c)) c.exception_policy = EvaluationExceptionPolicy::Propagate; NO(S::WelchTTestDetailed(o, t, 0.05, c)); NO(S::ConfidenceIntervalMeanDetailed(o, 0.95, c)); }
