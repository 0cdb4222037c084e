// BOUNDS: samples of 1-5 values (thorough 7), every real value of a bounded range with every ordering and every pattern of ties; correlation of 2-4 pairs; data matrices of up to 4 observations of 3 variables
// OUTSIDE: rounding, not-a-number values, larger samples; significance by normal approximation is checked as documented, not for its accuracy
#include "h.h"
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/StatisticsRank.h"
namespace S = MML::Statistics;
typedef Vector<Real> V; typedef Matrix<Real> M;
static double sum(const V &v) { double s = 0; for (int i = 0; i < v.size(); i++) s = s + v[i]; return s; }
static double S2(const V &x, const V &y) { int n = x.size(); double s = 0; for (int i = 0; i < n; i++) s = s + (x[i] - sum(x) / n) * (y[i] - sum(y) / n); return s; }
static V sorted(const V &v) { V r = v; for (int i = 1; i < r.size(); i++) for (int j = i; j > 0 && r[j] < r[j - 1]; j--) { double t = r[j]; r[j] = r[j - 1]; r[j - 1] = t; } return r; }
static double med(const V &s) { int n = s.size(); return n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2; }
CASEN(moments, 1, 5, 7) { V x = sVec("x", n); sym::obs("x", x[0]); sym::eq(S::Avg(x) * n, sum(x), "mean"); sym::eq(S::Mean(x) * n, sum(x), "mean"); if (n < 2) return; double a, v, q = S2(x, x); S::AvgVar(x, a, v); sym::eq(a * n, sum(x), "mean"); sym::eq(v * (n - 1), q, "sample variance"); sym::eq(S::Variance(x) * (n - 1), q, "sample variance"); double s; S::AvgStdDev(x, a, s); sym::eq(a * n, sum(x), "mean"); sym::check(s >= 0, "deviation is not negative"); sym::eq(s * s * (n - 1), q, "standard deviation"); double u = S::StdDev(x); sym::check(u >= 0, "deviation is not negative"); sym::eq(u * u * (n - 1), q, "standard deviation");
  double c = sym::real("c"), k = sym::real("k", -4, 4); V y(n); for (int i = 0; i < n; i++) y[i] = k * x[i] + c; sym::eq(S::Mean(y), k * S::Mean(x) + c, "the mean follows shifts and scales"); sym::eq(S::Variance(y), k * k * S::Variance(x), "the variance ignores shifts and follows squared scales"); }
// all moments; for skewness and kurtosis the sample is a fixed shape, shifted and scaled
CASEN(higher, 0, 3, 5) { static const double P[6][5] = {{0, 1, 3, 0, 0}, {0, 1, 1, 5, 0}, {-2, 1, 0, 4, 0}, {0, 1, 0, 0, 0}, {1, 2, 4, 8, 16}, {-3, -1, 0, 1, 7}}; int N = n == 0 ? 3 : n == 3 ? 2 : n < 3 ? 4 : 5; double c = sym::real("c"), k = sym::real("k", 0.25, 4), sg = sym::flag("neg") ? -1 : 1; V x(N), p(N); for (int i = 0; i < N; i++) p[i] = P[n][i], x[i] = sg * k * p[i] + c; sym::obs("k", k); double a, d, s, v, w, u; S::Moments(x, a, d, s, v, w, u); double m = sum(p) / N, q = 0, m3 = 0, m4 = 0, ad = 0; for (int i = 0; i < N; i++) { double e = p[i] - m; q += e * e; m3 += e * e * e; m4 += e * e * e * e; ad += std::abs(e); } double var = q / (N - 1); sym::eq(a, sg * k * m + c, "mean"); sym::eq(d, k * ad / N, "average deviation"); sym::eq(v, k * k * var, "variance"); sym::eq(s, k * std::sqrt(var), "deviation"); sym::eq(w, sg * m3 / (N * var * std::sqrt(var)), "skewness"); sym::eq(u, m4 / (N * var * var) - 3, "excess kurtosis"); sym::check(THROWS(StatisticsError, S::Moments(V(N, c), a, d, s, v, w, u)), "constant samples are refused"); }
CASEN(lowmoments, 2, 3, 4) { V x = sVec("x", n); double a, d, s, v, w, u, m = sum(x) / n, ad = 0; sym::assume(far(x[1] - x[0])); sym::obs("x", x[0]); S::Moments(x, a, d, s, v, w, u); for (int i = 0; i < n; i++) ad = ad + std::abs(x[i] - m); sym::eq(a, m, "mean"); sym::eq(d * n, ad, "average deviation"); sym::eq(v * (n - 1), S2(x, x), "variance"); sym::eq(s * s, v, "deviation"); }
CASEN(order, 1, 4, 6) { V x = sVec("x", n), s = sorted(x); sym::obs("x", x[0]); sym::eq(S::Median(x), med(s), "median"); double lo, hi, q1, q2, q3; S::MinMax(x, lo, hi); sym::eq(lo, s[0], "minimum"); sym::eq(hi, s[n - 1], "maximum"); sym::eq(S::Range(x), s[n - 1] - s[0], "range"); S::Quartiles(x, q1, q2, q3); sym::eq(q2, med(s), "second quartile"); auto at = [&](double f) { double r = f * (n - 1); int k = (int)r; return k + 1 >= n ? s[n - 1] : s[k] + (r - k) * (s[k + 1] - s[k]); }; sym::eq(q1, at(0.25), "first quartile"); sym::eq(q3, at(0.75), "third quartile"); sym::eq(S::IQR(x), at(0.75) - at(0.25), "interquartile range"); }
CASEN(percentile, 1, 4, 5) { V x = sVec("x", n); double p = sym::real("p", 0, 100); V s = n < 4 ? sorted(x) : x; if (n >= 4) for (int i = 0; i + 1 < n; i++) sym::assume(x[i] <= x[i + 1]); sym::obs("p", p); double r = p / 100 * (n - 1), v = S::Percentile(x, p); for (int k = 0; k + 1 < n; k++) if ((r >= k) & (r <= k + 1)) sym::eq(v, s[k] + (r - k) * (s[k + 1] - s[k]), "linear between the order statistics"); if (n == 1) sym::eq(v, x[0], "one value"); sym::eq(S::Percentile(x, 0), s[0], "lowest"); sym::eq(S::Percentile(x, 100), s[n - 1], "highest"); double out = sym::real("out", 0.001, 50); sym::check(THROWS(StatisticsError, S::Percentile(x, -out)), "percent below 0 is refused"); sym::check(THROWS(StatisticsError, S::Percentile(x, 100 + out)), "percent above 100 is refused"); }
CASEN(mode, 1, 4, 5) { V x = sVec("x", n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym::assume(sep(x[i] - x[j])); sym::obs("x", x[0]); double m = S::Mode(x); int best = 0, cm = 0; double low = 0; for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) if (x[j] == x[i]) c++; if (c > best || (c == best && x[i] < low)) best = c, low = x[i]; if (x[i] == m) cm = c; } sym::check(cm == best, "a most frequent value"); if (best > 1) sym::eq(m, low, "the smallest of the most frequent values"); }
CASEN(trimmed, 1, 4, 5) { V x = sVec("x", n); double t = sym::real("t", 0, 49.9); V s = n < 4 ? sorted(x) : x; if (n >= 4) for (int i = 0; i + 1 < n; i++) sym::assume(x[i] <= x[i + 1]); sym::obs("t", t); for (int k = 0; k <= n; k++) sym::assume(far(n * t - 100 * k, 1e-6) | (t == 0)); int cut = 0; while (100 * (cut + 1) <= n * t) cut++; double q = 0; for (int i = cut; i < n - cut; i++) q = q + s[i]; sym::eq(S::TrimmedMean(x, t) * (n - 2 * cut), q, "mean of the middle values"); double o = sym::real("o", 0.001, 50); sym::check(THROWS(StatisticsError, S::TrimmedMean(x, -o)) && THROWS(StatisticsError, S::TrimmedMean(x, 50 + o)) && THROWS(StatisticsError, S::TrimmedMean(x, 50)), "bad percentages are refused"); if (n == 4) sym::eq(S::TrimmedMean(x, 25) * 2, s[1] + s[2], "a quarter"); }
CASEN(mad, 1, 3, 4) { V x = sVec("x", n), s = sorted(x), d(n); double m = med(s); for (int i = 0; i < n; i++) d[i] = std::abs(x[i] - m); sym::obs("x", x[0]); sym::eq(S::MAD(x), med(sorted(d)), "median absolute deviation"); }
CASEN(means, 1, 4, 6) { V x = sVec("x", n, 0.25, 8); sym::obs("x", x[0]); double l = 0, h = 0, p = 1, g = S::GeometricMean(x), H = S::HarmonicMean(x); for (int i = 0; i < n; i++) l = l + std::log(x[i]), h = h + 1 / x[i], p = p * x[i]; sym::eq(g, std::exp(l / n), "geometric mean"); sym::eq(H * h, (double)n, "harmonic mean"); int k = sym::pick(0, n - 1, "bad"); V y = x; y[k] = -sym::real("z", 0, 8); sym::check(THROWS(StatisticsError, S::GeometricMean(y)) && THROWS(StatisticsError, S::HarmonicMean(y)), "values that are not positive are refused"); }
CASEN(weighted, 1, 4, 5) { V x = sVec("x", n), w = sVec("w", n, 0, 8); double W = sum(w), q = 0; sym::obs("x", x[0]); for (int i = 0; i < n; i++) q = q + w[i] * x[i]; sym::assume((W == 0) | (W > 0.01)); if (W == 0) { sym::check(THROWS(StatisticsError, S::WeightedMean(x, w)), "weights of zero are refused"); return; } sym::eq(S::WeightedMean(x, w) * W, q, "weighted mean"); if (n > 1) { sym::assume((W <= 1) | (W > 1.001)); if (W <= 1) sym::check(THROWS(StatisticsError, S::WeightedVariance(x, w)), "a total weight of at most one is refused"); else { double z = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) z = z + w[i] * w[j] * (x[i] - x[j]) * (x[i] - x[j]); sym::eq(S::WeightedVariance(x, w) * (W - 1) * W, z, "weighted variance", 1e-6); } } int k = sym::pick(0, n - 1, "bad"); w[k] = -sym::real("z", 0.001, 8); sym::check(THROWS(StatisticsError, S::WeightedMean(x, w)), "negative weights are refused"); if (n > 1) sym::check(THROWS(StatisticsError, S::WeightedVariance(x, w)), "negative weights are refused"); }
CASE(refused) { V e(0), o{sym::real("x")}, t{1., 2.}; double a, b, c, d, f, g; sym::check(THROWS(StatisticsError, S::Avg(e)) && THROWS(StatisticsError, S::AvgVar(e, a, b)) && THROWS(StatisticsError, S::AvgStdDev(e, a, b)) && THROWS(StatisticsError, S::Median(e)) && THROWS(StatisticsError, S::Percentile(e, 50)) && THROWS(StatisticsError, S::Quartiles(e, a, b, c)) && THROWS(StatisticsError, S::Range(e)) && THROWS(StatisticsError, S::IQR(e)) && THROWS(StatisticsError, S::MinMax(e, a, b)) && THROWS(StatisticsError, S::Mode(e)) && THROWS(StatisticsError, S::TrimmedMean(e, 10)) && THROWS(StatisticsError, S::MAD(e)) && THROWS(StatisticsError, S::GeometricMean(e)) && THROWS(StatisticsError, S::HarmonicMean(e)) && THROWS(StatisticsError, S::WeightedMean(e, e)), "empty samples are refused");
  sym::check(THROWS(StatisticsError, S::AvgVar(o, a, b)) && THROWS(StatisticsError, S::Variance(o)) && THROWS(StatisticsError, S::StdDev(o)) && THROWS(StatisticsError, S::AvgStdDev(o, a, b)) && THROWS(StatisticsError, S::Moments(o, a, b, c, d, f, g)) && THROWS(StatisticsError, S::Covariance(o, o)) && THROWS(StatisticsError, S::PearsonCorrelation(o, o)) && THROWS(StatisticsError, S::SpearmanCorrelation(o, o)) && THROWS(StatisticsError, S::KendallCorrelation(o, o)) && THROWS(StatisticsError, S::WeightedVariance(o, o)), "spreads of a single value are refused");
  sym::check(THROWS(StatisticsError, S::WeightedMean(t, o)) && THROWS(StatisticsError, S::WeightedVariance(t, o)) && THROWS(StatisticsError, S::Covariance(t, o)) && THROWS(StatisticsError, S::PearsonCorrelation(t, o)) && THROWS(StatisticsError, S::SpearmanCorrelation(t, o)) && THROWS(StatisticsError, S::KendallCorrelation(t, o)), "different lengths are refused"); sym::check(THROWS(StatisticsError, S::PearsonCorrelationWithTest(t, t)) && THROWS(StatisticsError, S::SpearmanCorrelationWithTest(t, t)) && THROWS(StatisticsError, S::KendallCorrelationWithTest(t, t)), "two pairs are too few for a test"); V cst(3, sym::real("c")), u{1., 2., 4.}; sym::check(THROWS(StatisticsError, S::PearsonCorrelation(cst, u)) && THROWS(StatisticsError, S::PearsonCorrelation(u, cst)) && THROWS(StatisticsError, S::RSquared(cst, u)) && THROWS(StatisticsError, S::SpearmanCorrelation(cst, u)), "constant variables are refused"); sym::check(THROWS(StatisticsError, S::CovarianceMatrix(M(1, 2))) && THROWS(StatisticsError, S::CorrelationMatrix(M(1, 2))) && THROWS(StatisticsError, S::CorrelationMatrix(M(3, 2))), "a matrix without spread is refused"); }
CASEN(covariance, 2, 5, 7) { V x = sVec("x", n), y = sVec("y", n); sym::obs("x", x[0]); double c = S::Covariance(x, y); sym::eq(c * (n - 1), S2(x, y), "covariance"); sym::eq(S::Covariance(y, x), c, "symmetric"); sym::eq(S::Covariance(x, x), S::Variance(x), "the covariance with itself is the variance"); }
CASEN(pearson, 2, 4, 4) { static const double P[] = {0, 1, 3, -2}; V x(n), y = n == 4 ? V{0., 0., 0., 1.} : sVec("y", n); double c = sym::real("c"), k = sym::real("k", 0.25, 4), sg = sym::flag("neg") ? -1 : 1; if (n == 4) y[1] = sym::real("y", 0), y[2] = sym::real("y", 1); for (int i = 0; i < n; i++) x[i] = sg * k * P[i] + c; sym::assume(far(y[1] - y[0]) | far(y[n - 1] - y[0])); sym::obs("k", k); double a = S2(x, x), b = S2(y, y), q = S2(x, y), r = S::PearsonCorrelation(x, y); sym::eq(r * r * a * b, q * q, "correlation", 1e-6); sym::check((r * q > -1e-9), "sign of the correlation"); sym::eq(S::PearsonCorrelation(y, x), r, "symmetric"); double r2 = S::RSquared(x, y); sym::eq(r2 * a * b, q * q, "coefficient of determination", 1e-6); if (n == 3) sym::check(r2 <= 1 + 1e-9, "never above one"); V z(n); for (int i = 0; i < n; i++) z[i] = P[i]; sym::eq(S::PearsonCorrelation(z, y) * sg, r, "shifts and scales do not matter"); }
CASEN(ptest, 3, 4, 4) { static const double P[] = {0, 1, 3, -2}; V x(n), y(n); double e = sym::real("e"), k = sym::real("k", 0.25, 4); for (int i = 0; i < n; i++) x[i] = P[i], y[i] = k * P[i] + (i == 1 ? e : 0); sym::assume(far(e, 0.01)); sym::obs("e", e); sym::assume(far(y[1] - y[0]) | far(y[n - 1] - y[0])); auto t = S::PearsonCorrelationWithTest(x, y); double a = S2(x, x), b = S2(y, y), q = S2(x, y); sym::check(t.degreesOfFreedom == n - 2, "degrees of freedom"); sym::eq(t.r * t.r * a * b, q * q, "correlation", 1e-6); sym::eq(t.tStatistic * t.tStatistic * (a * b - q * q), (n - 2) * q * q, "test statistic", 1e-5); sym::check((t.tStatistic * q > -1e-9) & (t.r * q > -1e-9), "sign"); }
CASEN(matrix, 0, 3, 4) { int N = 2 + n % 3, p = 1 + (n + 1) / 2 % 3; M d = sMat("d", N, p, -4, 4), C = S::CovarianceMatrix(d); sym::obs("d", d(0, 0)); sym::check(C.rows() == p && C.cols() == p, "shape"); std::vector<V> c; for (int j = 0; j < p; j++) { V v(N); for (int i = 0; i < N; i++) v[i] = d(i, j); c.push_back(v); } for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) sym::eq(C(i, j) * (N - 1), S2(c[i], c[j]), "entries are covariances"); }
CASEN(corrmatrix, 0, 2, 2) { static const double P[3][4] = {{0, 1, 3, -2}, {1, 0, -1, 4}, {2, 2, 5, 0}}; int N = 2 + n; double k = sym::real("k", 0.25, 4), c = sym::real("c"), e = sym::real("e", 0.25, 0.75); M d(N, 3); for (int i = 0; i < N; i++) d(i, 0) = k * P[0][i] + c, d(i, 1) = P[1][i] + (i == 1 ? e : 0), d(i, 2) = n == 0 ? -k * i : P[2][i] - c; sym::obs("k", k); M R = S::CorrelationMatrix(d); std::vector<V> v; for (int j = 0; j < 3; j++) { V u(N); for (int i = 0; i < N; i++) u[i] = d(i, j); v.push_back(u); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i == j) sym::eq(R(i, i), 1, "one on the diagonal"); else { sym::eq(R(i, j), S::PearsonCorrelation(v[i], v[j]), "entries are correlations", 1e-6); } }
// ranks and rank correlation, for every ordering and every pattern of ties
CASEN(ranks, 0, 4, 5) { V x = sVec("x", n), r = S::ComputeRanks(x); sym::obs("n", n); sym::check(r.size() == n, "one rank per value"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym::assume(sep(x[i] - x[j])); for (int i = 0; i < n; i++) { int less = 0, eq = 0; for (int j = 0; j < n; j++) if (x[j] < x[i]) less++; else if (x[j] == x[i]) eq++; sym::eq(r[i], 1 + less + (eq - 1) / 2., "average rank"); } }
static V ranksOf(const V &x) { int n = x.size(); V r(n); for (int i = 0; i < n; i++) { double q = 0.5; for (int j = 0; j < n; j++) if (x[j] < x[i]) q += 1; else if (x[j] == x[i]) q += 0.5; r[i] = q; } return r; }
CASEN(rankcorr, 2, 3, 4) { V x = sVec("x", n), y = sVec("y", n); if (n == 4) for (int i = 0; i < 3; i++) sym::assume(x[i] <= x[i + 1]); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym::assume(sep(x[i] - x[j]) & sep(y[i] - y[j])); sym::obs("n", n); V a = ranksOf(x), b = ranksOf(y); int C = 0, D = 0, tx = 0, ty = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double p = (a[i] - a[j]) * (b[i] - b[j]); if (p > 0) C++; else if (p < 0) D++; else if (a[i] != a[j]) ty++; else if (b[i] != b[j]) tx++; } double t = S::KendallCorrelation(x, y), dn = std::sqrt((double)(C + D + tx) * (C + D + ty)); if (dn > 0) sym::eq(t * dn, C - D, "concordant minus discordant pairs"); else sym::eq(t, 0, "all pairs tied"); double u = S2(a, a), v = S2(b, b); if (u == 0 || v == 0) { sym::check(THROWS(StatisticsError, S::SpearmanCorrelation(x, y)), "a constant variable is refused"); return; } double s = S2(a, b) / std::sqrt(u * v); sym::eq(S::SpearmanCorrelation(x, y), s, "correlation of the ranks");
  auto ds = S::SpearmanCorrelationDetailed(x, y); sym::check(ds.status == AlgorithmStatus::Success && ds.n == n && ds.algorithm_name == "SpearmanCorrelation", "detailed result"); sym::eq(ds.rho, s, "detailed result"); auto dk = S::KendallCorrelationDetailed(x, y); sym::check(dk.status == AlgorithmStatus::Success && dk.n == n, "detailed result"); sym::eq(dk.rho, t, "detailed result"); if (n < 3) return; auto st = S::SpearmanCorrelationWithTest(x, y); auto kt = S::KendallCorrelationWithTest(x, y); sym::eq(st.rho, s, "correlation of the ranks"); sym::eq(st.zScore, s * std::sqrt(n - 1.), "score"); sym::eq(kt.rho, t, "Kendall"); sym::eq(kt.zScore, t / std::sqrt(2. * (2 * n + 5) / (9. * n * (n - 1))), "score"); sym::check(st.n == n && kt.n == n, "sample size"); auto sd = S::SpearmanCorrelationWithTestDetailed(x, y); auto kd = S::KendallCorrelationWithTestDetailed(x, y); sym::eq(sd.zScore, st.zScore, "detailed score"); sym::eq(kd.zScore, kt.zScore, "detailed score"); sym::eq(sd.rho, s, "detailed result"); sym::eq(kd.rho, t, "detailed result"); sym::check(kd.n == n && sd.n == n, "detailed result"); }
// order-preserving changes of either variable do not matter, however large or small the values become
CASEN(monotone, 2, 3, 4) { V x = sVec("x", n, 0, 8), y(n), z(n); static const double K[] = {1e-18, 1e-6, 1, 1e9}; double k = K[sym::pick(0, 3, "scale")]; static const double Y[] = {2, 0, 1, 5}; for (int i = 0; i < n; i++) { y[i] = Y[i], z[i] = k * x[i]; for (int j = 0; j < i; j++) sym::assume(sep(x[i] - x[j])); } sym::assume(far(x[1] - x[0])); sym::obs("x", x[0]); sym::eq(S::SpearmanCorrelation(z, y), S::SpearmanCorrelation(x, y), "scales do not matter"); sym::eq(S::KendallCorrelation(z, y), S::KendallCorrelation(x, y), "scales do not matter"); }
CASE(significance) { double z = sym::real("z"), al = sym::real("al", 0, 0.5); sym::assume(far(z - 1.96) & far(z + 1.96) & far(z - 2.576) & far(z + 2.576)); sym::obs("z", z); S::RankCorrelationResult r{0, z, 9}; S::RankCorrelationDetailedResult d; d.zScore = z; sym::check(r.IsSignificant() == (std::abs(z) > 1.96), "five percent"); bool want = std::abs(z) > (al <= 0.01 ? 2.576 : 1.96); sym::check(r.IsSignificant(al) == want && d.IsSignificant(al) == want, "level"); V e(0), o{1.}; S::StatisticsConfig c; sym::check(THROWS(StatisticsError, S::KendallCorrelationDetailed(o, o, c)) || S::KendallCorrelationDetailed(o, o, c).status != AlgorithmStatus::Success, "failure is reported"); c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto f = S::SpearmanCorrelationWithTestDetailed(o, o, c); sym::check(f.status != AlgorithmStatus::Success && !f.error_message.empty(), "failure is reported"); c.exception_policy = EvaluationExceptionPolicy::Propagate; sym::check(THROWS(StatisticsError, S::SpearmanCorrelationDetailed(o, o, c)), "failure is passed on"); }
