// BOUNDS: straight lines through 1-4 points with any coordinates (thorough 6); linear combinations and polynomials of degree 0-3 through 1-6 points with any ordinates (one of them well away from the others) at fixed abscissae, among them repeated and dependent ones
// OUTSIDE: rounding, not-a-number data; the singular value decomposition of the fixed design matrices runs on concrete numbers
#include "h.h"
#include "mml/base/Function.h"
#include "mml/algorithms/CurveFitting.h"
typedef Vector<Real> V; typedef Matrix<Real> M;
// ordinates with one value well away from the others, so that they vary
static V yVec(int m) { V y = sVec("y", m, -4, 4); int k = sym::pick(0, m - 1, "far"); y[k] = y[k] + (sym::flag("neg") ? -64 : 64); return y; }
static double mean(const V &v) { double s = 0; for (int i = 0; i < (int)v.size(); i++) s = s + v[i]; return s / v.size(); }
static double ssq(const V &v) { double s = 0, m = mean(v); for (int i = 0; i < (int)v.size(); i++) s = s + (v[i] - m) * (v[i] - m); return s; }
static V shape(int n, int w, double k, double c) { static const double P[4][6] = {{0, 1, 3, -2, 5, 2}, {1, 1, 2, 2, 0, 7}, {-1, 0, 1, 2, 3, 4}, {4, 4, 4, 4, 4, 1}}; V v(n); for (int i = 0; i < n; i++) v[i] = k * P[w][i] + c; return v; }
// best line: the residuals are orthogonal to constants and to x
CASEN(line, 2, 4, 6) { V x = n < 4 ? sVec("x", n, -4, 4) : shape(n, n % 3, sym::real("k", 0.25, 4), sym::real("c", -4, 4)), y = sVec("y", n, -4, 4); double a, b, sx = ssq(x); if (n == 2) sym::assume(far(x[1] - x[0])); sym::assume(sx > 0.001); sym::obs("x", x[0]); double r = LinearLeastSquares(x, y, a, b), s0 = 0, s1 = 0, q = 0; for (int i = 0; i < n; i++) { double e = y[i] - a * x[i] - b; s0 = s0 + e; s1 = s1 + e * x[i]; q = q + e * e; } sym::eq(s0, 0, "residuals sum to zero", 1e-6); sym::eq(s1, 0, "residuals are orthogonal to x", 1e-6); sym::check(r >= 0, "norm"); sym::eq(r * r, q, "residual norm", 1e-6); if (n == 2) sym::eq(r, 0, "two points are met exactly"); }
CASEN(lstats, 2, 4, 6) { V x = shape(n, n % 3, sym::real("k", 0.25, 4), 0.5), y = yVec(n); double tot = ssq(y), mx = mean(x), my = mean(y), q = 0, xy = 0, sx = ssq(x); sym::obs("y", y[0]); auto f = LinearLeastSquaresDetailed(x, y); for (int i = 0; i < n; i++) { double e = y[i] - f.a * x[i] - f.b; q = q + e * e; xy = xy + (x[i] - mx) * (y[i] - my); } sym::eq(f.a * sx, xy, "slope"); sym::eq(f.a * mx + f.b, my, "the line passes through the mean"); sym::eq((1 - f.r_squared) * tot, q, "coefficient of determination", 1e-6); sym::eq(f.mean_squared_error * n, q, "mean squared error", 1e-6); sym::eq(f.residual_norm * f.residual_norm, q, "residual norm", 1e-6); auto d = LinearFitDetailed(x, y); sym::check(d.status == AlgorithmStatus::Success && d.algorithm_name == "LinearLeastSquares" && d.coefficients.size() == 2, "detailed"); sym::eq(d.coefficients[0], f.a, "detailed"); sym::eq(d.coefficients[1], f.b, "detailed"); sym::eq(d.r_squared, f.r_squared, "detailed"); sym::eq(d.residual_norm, f.residual_norm, "detailed"); sym::eq(d.mean_squared_error, f.mean_squared_error, "detailed"); }
// exact lines are found exactly, in every unit
static const double U[] = {1, 1e-12, 1e-18, 1e9};
CASEN(units, 2, 3, 3) { double ux = U[sym::pick(0, 3, "ux")], uy = U[sym::pick(0, 3, "uy")]; V p = shape(n, 0, 1, 0), x(n), y = yVec(n), z(n); for (int i = 0; i < n; i++) x[i] = ux * p[i], z[i] = uy * y[i]; sym::obs("y", y[0]); auto f = LinearLeastSquaresDetailed(p, y), g = LinearLeastSquaresDetailed(x, z); sym::eq(g.a * (ux / uy), f.a, "slope in other units"); sym::eq(g.b / uy, f.b, "intercept in other units"); sym::eq(g.r_squared, f.r_squared, "the quality of the fit does not depend on the unit", 1e-6); V c(n, uy * 1.5); auto h = LinearLeastSquaresDetailed(x, c); sym::eq(h.a * (ux / uy), 0, "constant data"); sym::eq(h.r_squared, 1, "constant data are fitted perfectly"); }
CASE(special) { V x{sym::real("x")}, y{sym::real("y")}; double a, b; sym::eq(LinearLeastSquares(x, y, a, b), 0, "one point"); sym::eq(a, 0, "one point"); sym::eq(b, y[0], "one point"); double c = sym::real("c"), u = sym::real("u"), v = sym::real("v"); sym::eq(LinearLeastSquares(V{c, c}, V{u, v}, a, b), std::sqrt((u - v) * (u - v) / 2), "two ordinates at one abscissa", 1e-6); sym::eq(a, 0, "two ordinates at one abscissa"); sym::eq(b, (u + v) / 2, "two ordinates at one abscissa"); sym::assume(far(c)); sym::check(THROWS(SingularMatrixError, LinearLeastSquares(V{c, c, c}, V{u, v, 1.}, a, b)), "equal abscissae are refused"); CurveFittingConfig g; g.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = LinearFitDetailed(V{c, c, c}, V{u, v, 1.}, g); sym::check(r.status == AlgorithmStatus::SingularMatrix && !r.error_message.empty(), "failure is reported"); }
typedef std::function<Real(Real)> F;
struct Bas : IRealFunction { F f; Bas(F g) : f(g) {} Real operator()(Real x) const override { return f(x); } };
static F B[] = {[](Real) { return 1.; }, [](Real x) { return x; }, [](Real x) { return std::sin(x); }, [](Real x) { return std::exp(-x); }, [](Real x) { return 2 * x - 1; }};
static void fitCheck(const GeneralLinearFitResult<Real> &f, const V &x, const V &y, const std::vector<F> &b, int rank) { int m = x.size(), n = b.size(); double tot = ssq(y), q = 0; sym::check((int)f.coefficients.size() == n && f.num_data_points == m && f.num_basis_functions == n, "sizes"); V o(n, 0.); for (int i = 0; i < m; i++) { double e = y[i]; for (int j = 0; j < n; j++) e = e - f.coefficients[j] * b[j](x[i]); for (int j = 0; j < n; j++) o[j] = o[j] + e * b[j](x[i]); q = q + e * e; } for (int j = 0; j < n; j++) sym::eq(o[j], 0, "residuals are orthogonal to every basis function", 1e-6); sym::eq(f.mean_squared_error * m, q, "mean squared error", 1e-6); sym::eq(f.residual_norm * f.residual_norm, q, "residual norm", 1e-6); sym::eq((1 - f.r_squared) * tot, q, "coefficient of determination", 1e-5); sym::eq((1 - f.adjusted_r_squared) * tot * (m > n ? m - n : 1), m > n ? q * (m - 1) : q, "adjusted coefficient of determination", 1e-5); sym::check(f.effective_rank == rank, "rank"); sym::check(f.condition_number >= 1 && f.condition_number < 1e9, "condition"); }
CASEN(general, 0, 5, 7) { static const struct { int m, w; std::vector<int> b; int rank; } S[] = {{3, 0, {0, 1}, 2}, {4, 2, {0, 1, 2}, 3}, {3, 2, {0, 2, 3}, 3}, {4, 1, {1, 3}, 2}, {4, 0, {0, 1, 4}, 2}, {3, 3, {0, 1}, 1}, {6, 1, {0, 1, 2, 3}, 4}, {6, 2, {0, 1, 2, 3, 4}, 4}}; auto &s = S[n]; V x = shape(s.m, s.w, 0.5, 0.25), y = yVec(s.m); sym::obs("y", y[0]); int k = s.b.size(); std::vector<F> b; std::vector<std::unique_ptr<Bas>> own; Vector<F> vf(k); Vector<const IRealFunction *> vp(k); for (int j = 0; j < k; j++) { b.push_back(B[s.b[j]]); own.push_back(std::make_unique<Bas>(b[j])); vf[j] = b[j]; vp[j] = own[j].get(); } auto f = GeneralLinearLeastSquares(x, y, vf), g = GeneralLinearLeastSquares(x, y, vp); fitCheck(f, x, y, b, s.rank); fitCheck(g, x, y, b, s.rank); double t = 0.75, e = 0; for (int j = 0; j < k; j++) e = e + f.coefficients[j] * b[j](t); sym::eq(f.evaluate(t, vf), e, "evaluation"); sym::eq(f.evaluate(t, vp), e, "evaluation"); auto d = GeneralLinearFitDetailed(x, y, vf); sym::check(d.status == AlgorithmStatus::Success && d.effective_rank == s.rank && d.algorithm_name == "GeneralLinearLeastSquares", "detailed"); eqV(d.coefficients, f.coefficients, k, "detailed"); sym::eq(d.residual_norm, f.residual_norm, "detailed"); sym::eq(d.r_squared, f.r_squared, "detailed"); sym::eq(d.adjusted_r_squared, f.adjusted_r_squared, "detailed"); sym::eq(d.mean_squared_error, f.mean_squared_error, "detailed"); sym::eq(d.condition_number, f.condition_number, "detailed"); }
CASEN(poly, 0, 7, 11) { int deg = n % 4, m = deg + 1 + n / 4; V x = shape(m, 2 * (n / 4 % 2), 0.5, -0.25), y = yVec(m); sym::obs("y", y[0]); auto f = PolynomialFit(x, y, deg); std::vector<F> b; for (int i = 0; i <= deg; i++) b.push_back([i](Real t) { double p = 1; for (int j = 0; j < i; j++) p = p * t; return p; }); if (m > 1) fitCheck(f, x, y, b, deg + 1); if (m == deg + 1) for (int i = 0; i < m; i++) sym::eq(EvaluatePolynomial(x[i], f.coefficients), y[i], "as many points as coefficients are met exactly"); double t = sym::real("t", -2, 2), e = 0, p = 1; for (int i = 0; i <= deg; i++) e = e + f.coefficients[i] * p, p = p * t; sym::eq(EvaluatePolynomial(t, f.coefficients), e, "evaluation"); auto d = PolynomialFitDetailed(x, y, deg); sym::check(d.status == AlgorithmStatus::Success && d.algorithm_name == "PolynomialFit", "detailed"); eqV(d.coefficients, f.coefficients, deg + 1, "detailed"); sym::eq(d.residual_norm, f.residual_norm, "detailed"); sym::eq(d.r_squared, f.r_squared, "detailed"); }
CASEN(gunits, 0, 1, 1) { double uy = U[sym::pick(0, 3, "uy")]; V x = shape(4, 0, 1, 0), y = yVec(4), z(4); for (int i = 0; i < 4; i++) z[i] = uy * y[i]; sym::obs("y", y[0]); std::vector<std::unique_ptr<Bas>> own; Vector<const IRealFunction *> vp(2); for (int j = 0; j < 2; j++) own.push_back(std::make_unique<Bas>(B[j])), vp[j] = own[j].get(); auto fit = [&](const V &v) { return n ? GeneralLinearLeastSquares(x, v, vp) : PolynomialFit(x, v, 1); }; auto f = fit(y), g = fit(z); for (int i = 0; i < 2; i++) sym::eq(g.coefficients[i] / uy, f.coefficients[i], "coefficients in other units"); sym::eq(g.r_squared, f.r_squared, "the quality of the fit does not depend on the unit", 1e-6); sym::eq(g.adjusted_r_squared, f.adjusted_r_squared, "the quality of the fit does not depend on the unit", 1e-6); auto c = fit(V(4, uy * 1.5)); sym::eq(c.r_squared, 1, "constant data are fitted perfectly"); }
CASE(refused) { V e(0), o{sym::real("x")}, t{1., 2.}; double a, b; Vector<F> none(0), two(2); two[0] = B[0]; two[1] = B[1]; Bas p0(B[0]), p1(B[1]); Vector<const IRealFunction *> pn(0), pt(2); pt[0] = &p0; pt[1] = &p1;
#define NO(c) sym::check(THROWS(CurveFittingError, c), "refused: " #c)
  NO(LinearLeastSquares(e, e, a, b)); NO(LinearLeastSquares(o, t, a, b)); NO(GeneralLinearLeastSquares(e, e, two)); NO(GeneralLinearLeastSquares(o, t, two)); NO(GeneralLinearLeastSquares(t, t, none)); NO(GeneralLinearLeastSquares(o, o, two)); NO(GeneralLinearLeastSquares(e, e, pt)); NO(GeneralLinearLeastSquares(o, t, pt)); NO(GeneralLinearLeastSquares(t, t, pn)); NO(GeneralLinearLeastSquares(o, o, pt)); NO(PolynomialFit(t, t, -1)); NO(PolynomialFit(t, t, 2)); NO(PolynomialFit(e, e, 0)); NO(LinearFitDetailed(o, t)); NO(PolynomialFitDetailed(t, t, 2)); GeneralLinearFitResult<Real> r; r.coefficients = V(1); NO(r.evaluate(1, two)); NO(r.evaluate(1, pt)); CurveFittingConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; sym::check(LinearFitDetailed(o, t, c).status == AlgorithmStatus::InvalidInput && PolynomialFitDetailed(t, t, 2, c).status == AlgorithmStatus::InvalidInput && GeneralLinearFitDetailed(t, t, none, c).status == AlgorithmStatus::InvalidInput, "failure is reported"); sym::eq(EvaluatePolynomial(o[0], e), 0, "the empty polynomial is zero"); }
