// BOUNDS: tables of 2 to 5 points: every ordinate in [-8,8] and every query point, over four sets of abscissae (irregular, ascending and descending) and, for location and linear interpolation, over all ascending abscissae; interpolation orders 2 to 5; clamped and natural splines; bilinear and bicubic grids up to 3x4; curves through 3 and 4 points in the plane with rational chord lengths
// OUTSIDE: rounding, larger tables (the formulas are uniform in the number of points)
#include "h.h"
#include "mml/base/InterpolatedFunction.h"
static const double AX[][5] = {{0, 1, 2, 3, 4}, {-1, 0.5, 1, 3, 3.5}, {3, 2, 0.5, -1, -2}, {-2, -1.5, 1.5, 2, 4}};
static Vector<Real> ax(int k, int n) { Vector<Real> v(n); for (int i = 0; i < n; i++) v[i] = AX[k][i]; return v; }
static double P(double x, const double *c, int n) { double s = 0; for (int i = n - 1; i >= 0; i--) s = s * x + c[i]; return s; }
CASEN(locate, 2, 5, 6) { Vector<Real> x(n), y(n); double t = sym::real("x0", -4, 4); bool up = sym::flag("ascending"); for (int i = 0; i < n; i++) { x[i] = t; y[i] = i; double g = sym::real("gap", i, 0.125, 2); t = up ? t + g : t - g; } double q = sym::real("q", -8, 16); int m = sym::pick(2, n, "order"); PolynomInterpRealFunc f(x, y, m); int j = f.locate(q); sym::obs("j", j); sym::check(j >= 0 && j + m <= n, "stencil within the table"); if (m == 2) { bool in = up ? (q >= x[0]) & (q <= x[n - 1]) : (q <= x[0]) & (q >= x[n - 1]); if (in) sym::check(up ? x[j] <= q && q <= x[j + 1] : x[j] >= q && q >= x[j + 1], "interval contains the point"); } sym::check(up ? f.MinX() == x[0] && f.MaxX() == x[n - 1] : f.MinX() == x[n - 1] && f.MaxX() == x[0], "smallest and largest abscissa"); }
CASEN(lin, 2, 4, 5) { Vector<Real> x(n), y = sVec("y", n); double t = sym::real("x0", -4, 4); for (int i = 0; i < n; i++) { x[i] = t; t += sym::real("gap", i, 0.125, 2); } double q = sym::real("q", -8, 16); LinearInterpRealFunc f(x, y), e(x, y, true); double v = f(q), w = e(q); sym::obs("v", v); bool in = q >= x[0] && q <= x[n - 1]; if (!in) sym::check(v == 0, "zero outside"); else sym::check(v == w, "extrapolation only matters outside"); for (int i = 0; i + 1 < n; i++) if ((i == 0 || q >= x[i]) && (i == n - 2 || q <= x[i + 1])) sym::eq((w - y[i]) * (x[i + 1] - x[i]), (y[i + 1] - y[i]) * (q - x[i]), "on the chord"); }
CASE(lindesc) { Vector<Real> x = ax(2, 4), y = sVec("y", 4); double q = sym::real("q", -4, 6); LinearInterpRealFunc f(x, y); double v = f(q); sym::obs("v", v); if (q > 3 || q < -1) sym::check(v == 0, "zero outside"); else for (int i = 0; i < 3; i++) if (q <= x[i] && q >= x[i + 1]) sym::eq((v - y[i]) * (x[i + 1] - x[i]), (y[i + 1] - y[i]) * (q - x[i]), "on the chord of descending data"); }
CASEN(poly, 2, 5, 5) { int k = sym::pick(0, 3, "nodes"); Vector<Real> x = ax(k, n), y(n); double c[5]; for (int i = 0; i < n; i++) c[i] = sym::real("c", i, -4, 4); for (int i = 0; i < n; i++) y[i] = P(x[i], c, n); double q = sym::real("q", -5, 6); PolynomInterpRealFunc f(x, y, n); double v = f(q); sym::obs("v", v); sym::eq(v, P(q, c, n), "polynomial of degree n-1 reproduced"); }
CASEN(polyloc, 2, 4, 4) { int k = sym::pick(0, 3, "nodes"); Vector<Real> x = ax(k, 5), y = sVec("y", 5); PolynomInterpRealFunc f(x, y, n); double q = sym::real("q", -5, 6), v = f(q); sym::obs("v", v); int j = f.locate(q); double s = 0; for (int a = 0; a < n; a++) { double l = y[j + a]; for (int b = 0; b < n; b++) if (b != a) l *= (q - x[j + b]) / (x[j + a] - x[j + b]); s += l; } sym::eq(v, s, "Lagrange polynomial of the stencil"); for (int i = 0; i < 5; i++) sym::eq(f(x[i]), y[i], "through every point"); }
CASEN(spl, 2, 5, 5) { int k = sym::pick(0, 3, "nodes"); Vector<Real> x = ax(k, n), y = sVec("y", n); bool cl = sym::flag("clamped"); double d0 = sym::real("d0", -4, 4), d1 = sym::real("d1", -4, 4); SplineInterpRealFunc f = cl ? SplineInterpRealFunc(x, y, d0, d1) : SplineInterpRealFunc(x, y); sym::obs("m", f.GetSecondDerivative(0)); for (int i = 0; i < n; i++) sym::eq(f(x[i]), y[i], "through every point"); if (cl) { sym::eq(f.Derivative(x[0]), d0, "clamped start"); sym::eq(f.Derivative(x[n - 1]), d1, "clamped end"); } else { sym::eq(f.GetSecondDerivative(0), 0, "natural start"); sym::eq(f.GetSecondDerivative(n - 1), 0, "natural end"); } }
// on every piece S is a cubic whose derivatives are S' and S'', and value, slope and curvature reach the next node unbroken
CASEN(splc2, 2, 5, 5) { int k = sym::pick(0, 3, "nodes"), i = n == 2 ? 0 : sym::pick(0, n - 2, "piece"); Vector<Real> x = ax(k, n), y = sVec("y", n); bool cl = sym::flag("clamped"); SplineInterpRealFunc f = cl ? SplineInterpRealFunc(x, y, 1, -2) : SplineInterpRealFunc(x, y); double t = sym::real("t", 0, 0.999), q = x[i] + t * (x[i + 1] - x[i]); if (x[1] < x[0]) q = x[i + 1] + (1 - t) * (x[i] - x[i + 1]); double v = f(q), d = f.Derivative(q), c = f.SecondDerivative(q); sym::obs("v", v); for (int e = 0; e < 2; e++) { double z = x[i + e], h = z - q, ce = f.GetSecondDerivative(i + e); sym::eq(f(z), v + h * d + h * h * (2 * c + ce) / 6, "cubic piece joins the node value"); sym::eq(f.Derivative(z), d + h * (c + ce) / 2, "slope continuous at the node"); sym::eq(f.SecondDerivative(z), ce, "curvature continuous at the node"); } }
CASEN(splint, 2, 4, 5) { int k = sym::pick(0, 3, "nodes"); Vector<Real> x = ax(k, n), y = sVec("y", n); SplineInterpRealFunc f(x, y); int i = sym::pick(0, n - 2, "piece"); double t = sym::real("t", 0, 1), u = sym::real("u", 0, 1), a = x[i] + t * (x[i + 1] - x[i]), b = x[i] + u * (x[i + 1] - x[i]), m = (a + b) / 2, g = f.Integrate(a, b); sym::obs("g", g); sym::eq(6 * g, (b - a) * (f(a) + 4 * f(m) + f(b)), "integral over one piece"); sym::eq(f.Integrate(b, a), -g, "reversed bounds"); double lo = x[0] < x[n - 1] ? x[0] : x[n - 1], hi = x[0] < x[n - 1] ? x[n - 1] : x[0]; sym::eq(f.Integrate(lo, b) + f.Integrate(b, hi), f.Integrate(lo, hi), "additive"); double s = 0; for (int j = 0; j + 1 < n; j++) { double p = x[j], q = x[j + 1]; double w = (q - p) * (f(p) + 4 * f((p + q) / 2) + f(q)) / 6; s += x[0] < x[n - 1] ? w : -w; } sym::eq(f.Integrate(lo, hi), s, "integral over the whole table"); }
CASE(spldom) { Vector<Real> x = ax(1, 4), y = sVec("y", 4); SplineInterpRealFunc f(x, y); double a = sym::real("a", -4, 6), b = sym::real("b", -4, 6); double lo = a < b ? a : b, hi = a < b ? b : a; sym::obs("m", f.GetSecondDerivative(1)); int r = sym_throws<DomainError>([&] { f.Integrate(a, b); }); sym::check(r == (lo < -1 || hi > 3 ? 1 : 0), "integration outside the table refused"); int i = sym::integer("i", -2147483647 - 1, 2147483647); sym::check(sym_throws<IndexError>([&] { f.GetSecondDerivative(i); }) == (i < 0 || i > 3 ? 1 : 0), "index checked"); }
CASE(rat3) { double q = sym::real("q", -4, 4), p = 1, s = 0.25; Vector<Real> x{0, 1, 3}, y(3); for (int i = 0; i < 3; i++) y[i] = (p + q * x[i]) / (1 + s * x[i]); sym::assume(far(y[0] - y[1], 0.01) & far(y[1] - y[2], 0.01) & far(y[0] - y[2], 0.01) & far(y[0], 0.01) & far(y[1], 0.01) & far(y[2], 0.01)); RationalInterpRealFunc f(x, y, 3); double z = 0.5 + 1.5 * sym::pick(0, 2, "z"), v = 0; int r = sym_throws<RealFuncInterpRuntimeError>([&] { v = f(z); }); sym::obs("q", q); if (r == 0) sym::eq(v * (1 + s * z), p + q * z, "rational function reproduced", 1e-5); }
CASEN(ratnode, 2, 4, 5) { Vector<Real> x = ax(1, n), y = sVec("y", n); RationalInterpRealFunc f(x, y, n); sym::obs("y", y[0]); for (int i = 0; i < n; i++) sym::eq(f(x[i]), y[i], "through every point"); }
CASEN(bary, 2, 5, 5) { int k = sym::pick(0, 3, "nodes"), d = sym::pick(0, n - 1, "d"); Vector<Real> x = ax(k, n), y(n); double c[5]; for (int i = 0; i < n; i++) c[i] = i <= d ? sym::real("c", i, -4, 4) : 0; if (d == 0) c[1] = 0; for (int i = 0; i < n; i++) y[i] = P(x[i], c, d + 1); BarycentricRationalInterp f(x, y, d); double q = sym::real("q", -5, 6); for (int i = 0; i < n; i++) sym::eq(f(x[i]), y[i], "through every point"); for (int i = 0; i < n; i++) sym::assume(far(q - x[i], 0.01)); double den = 0; for (int i = 0; i < n; i++) den += f.getWeight(i) / (q - x[i]); sym::check(den != 0, "no pole"); double v = f(q); sym::obs("v", v); sym::eq(v, P(q, c, d + 1), "polynomials of degree d reproduced", 1e-5); }
CASEN(baryd, 1, 4, 5) { Vector<Real> x = ax(1, n), y = sVec("y", n); int d = sym::integer("d", -2147483647 - 1, 2147483647); sym::obs("y", y[0]); int r = sym_throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(x, y, d); sym::check(f.getNumPoints() == n && f.getBlendingParameter() == d, "parameters kept"); }); sym::check(r == (d < 0 || d >= n ? 1 : 0), "blending parameter checked"); }
CASE(init) { int n = sym::pick(1, 4, "n"), k = sym::pick(1, 4, "ny"), m = sym::integer("m", -2147483647 - 1, 2147483647); Vector<Real> x(n), y(k); for (int i = 0; i < n; i++) x[i] = sym::real("x", i, -4, 4); for (int i = 0; i < k; i++) y[i] = sym::real("y", i, -4, 4); bool dup = false; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) dup |= x[i] == x[j]; bool bad = n < 2 || m < 2 || m > n || dup || k != n; sym::obs("n", n); sym::check(sym_throws<RealFuncInterpInitError>([&] { PolynomInterpRealFunc f(x, y, m); sym::check(f.getNumPoints() == n && f.getInterpOrder() == m, "parameters kept"); }) == (bad ? 1 : 0), "sizes, order and repeated abscissae checked"); }
CASE(initspl) { int n = sym::pick(1, 4, "n"), k = sym::pick(1, 4, "ny"); Vector<Real> x = ax(1, n), y = sVec("y", k); sym::obs("n", n); bool bad = n < 2 || k != n; sym::check(sym_throws<RealFuncInterpInitError>([&] { SplineInterpRealFunc f(x, y); }) == (bad ? 1 : 0) && sym_throws<RealFuncInterpInitError>([&] { LinearInterpRealFunc f(x, y); }) == (bad ? 1 : 0) && sym_throws<RealFuncInterpInitError>([&] { RationalInterpRealFunc f(x, y, 2); }) == (bad ? 1 : 0), "sizes checked"); sym::check(sym_throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(x, y, 0); }) == (n != k ? 1 : 0), "barycentric sizes checked"); }
// grids
static Matrix<Real> grid(int m, int n) { return sMat("z", m, n); }
CASEN(bil, 0, 3, 3) { Vector<Real> x = ax(n, 3), y = ax((n + 1) % 4, 4); Matrix<Real> z = grid(3, 4); BilinearInterp2D f(x, y, z); int i = sym::pick(0, 1, "i"), j = sym::pick(0, 2, "j"); double t = sym::real("t", 0, 1), u = sym::real("u", 0, 1); sym::assume(t < 1 & u < 1 & t > 0 & u > 0); double hx = x[i + 1] - x[i], hy = y[j + 1] - y[j], p = x[i] + t * hx, q = y[j] + u * hy, v = f(p, q), w, a, b; f.interpWithDerivatives(p, q, w, a, b); sym::obs("v", v); double e = (1 - t) * (1 - u) * z(i, j) + t * (1 - u) * z(i + 1, j) + (1 - t) * u * z(i, j + 1) + t * u * z(i + 1, j + 1); sym::eq(v, e, "bilinear in the cell"); sym::eq(w, v, "same value with derivatives"); sym::eq(a * hx, (1 - u) * (z(i + 1, j) - z(i, j)) + u * (z(i + 1, j + 1) - z(i, j + 1)), "derivative in x1"); sym::eq(b * hy, (1 - t) * (z(i, j + 1) - z(i, j)) + t * (z(i + 1, j + 1) - z(i + 1, j)), "derivative in x2"); for (int r = 0; r < 3; r++) for (int s = 0; s < 4; s++) sym::eq(f(x[r], y[s]), z(r, s), "through every grid value"); }
CASEN(bic, 0, 1, 3) { Vector<Real> x = ax(n, 3), y = ax((n + 1) % 4, 4); Matrix<Real> z = grid(3, 4); BicubicSplineInterp2D f(x, y, z); int i = sym::pick(0, 1, "i"), j = sym::pick(0, 2, "j"); double t = sym::real("t", 0, 1), u = sym::real("u", 0, 1); sym::assume(t < 1 & u < 1 & t > 0 & u > 0); double p = x[i] + t * (x[i + 1] - x[i]), q = y[j] + u * (y[j + 1] - y[j]), v = f(p, q), w, a, b; f.interpWithDerivatives(p, q, w, a, b); sym::obs("v", v); sym::eq(w, v, "same value with derivatives"); Vector<Real> r0(4), c(3), dc(3); for (int r = 0; r < 3; r++) { for (int s = 0; s < 4; s++) r0[s] = z(r, s); SplineInterpRealFunc g(y, r0); c[r] = g(q); dc[r] = g.Derivative(q); } SplineInterpRealFunc h(x, c), k(x, dc); sym::eq(v, h(p), "spline of splines"); sym::eq(a, h.Derivative(p), "derivative in x1"); sym::eq(b, k(p), "derivative in x2"); for (int r = 0; r < 3; r++) for (int s = 0; s < 4; s++) sym::eq(f(x[r], y[s]), z(r, s), "through every grid value"); }
CASE(biclin) { Vector<Real> x = ax(1, 3), y = ax(3, 4); double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), c = sym::real("c", -4, 4), d = sym::real("d", -4, 4); Matrix<Real> z(3, 4); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) z(i, j) = a + b * x[i] + c * y[j] + d * x[i] * y[j]; BicubicSplineInterp2D f(x, y, z); BilinearInterp2D g(x, y, z); double p = sym::real("p", -2, 3), q = sym::real("q", -3, 4), e = a + b * p + c * q + d * p * q; sym::obs("e", e); sym::eq(f(p, q), e, "bicubic reproduces bilinear data"); sym::eq(g(p, q), e, "bilinear reproduces bilinear data"); }
CASE(gridsz) { int m = sym::pick(2, 3, "m"), n = sym::pick(2, 3, "n"), r = sym::pick(2, 3, "r"), s = sym::pick(2, 3, "s"); Matrix<Real> z = grid(r, s); Vector<Real> x = ax(0, m), y = ax(0, n); sym::obs("z", z(0, 0)); int bad = m != r || n != s; sym::check(sym_throws<RealFuncInterpInitError>([&] { BilinearInterp2D f(x, y, z); }) == bad && sym_throws<RealFuncInterpInitError>([&] { BicubicSplineInterp2D f(x, y, z); }) == bad, "grid dimensions checked"); }
// curves: chords along (3,4)/5 and (4,-3)/5 and (0,1) have rational lengths
static Matrix<Real> track(int n) { static const double D[4][2] = {{0.6, 0.8}, {0.8, -0.6}, {0, 1}, {-1, 0}}; Matrix<Real> m(n, 2); double x = sym::real("px", -4, 4), y = sym::real("py", -4, 4); for (int i = 0; i < n; i++) { m(i, 0) = x; m(i, 1) = y; double l = i == 1 ? 2 : i == 2 ? 0.5 : 1; x += l * D[i][0]; y += l * D[i][1]; } return m; }
CASEN(lcurve, 2, 4, 4) { Matrix<Real> m = track(n); LinInterpParametricCurve<2> c(m); double t = sym::real("t", -0.5, 1.5); auto p = c(t); sym::obs("x", p[0]); static const double L[] = {0, 1, 3, 3.5}; double tot = L[n - 1], s = t <= 0 ? 0 : t >= 1 ? tot : t * tot; for (int i = 0; i + 1 < n; i++) if (s >= L[i] && s <= L[i + 1]) for (int j = 0; j < 2; j++) sym::eq((p[j] - m(i, j)) * (L[i + 1] - L[i]), (s - L[i]) * (m(i + 1, j) - m(i, j)), "point at that share of the length", 1e-6); sym::check(c.getMinT() == 0 && c.getMaxT() == 1, "parameter range"); }
CASEN(scurve, 2, 4, 4) { Matrix<Real> m = track(n); double lo = sym::real("lo", -4, 4), w = sym::real("w", 0.25, 4); SplineInterpParametricCurve<2> c(lo, lo + w, m); static const double L[] = {0, 1, 3, 3.5}; sym::obs("lo", lo); sym::check(c.getMinT() == lo && c.getMaxT() == lo + w, "parameter range"); for (int i = 0; i < n; i++) { auto p = c(lo + w * (L[i] / L[n - 1])); for (int j = 0; j < 2; j++) sym::eq(p[j], m(i, j), "through every point at its share of the length", 1e-5); } }
// a closed curve: a rectangle 3 by 4 traversed once; the chord of the closing edge counts
CASE(sclosed) { double x = sym::real("px", -4, 4), y = sym::real("py", -4, 4), lo = sym::real("lo", -4, 4), w = sym::real("w", 0.25, 8); Matrix<Real> m(4, 2); double X[] = {0, 3, 3, 0}, Y[] = {0, 0, 4, 4}, L[] = {0, 3, 7, 10, 14}; for (int i = 0; i < 4; i++) { m(i, 0) = x + X[i]; m(i, 1) = y + Y[i]; } SplineInterpParametricCurve<2> c(lo, lo + w, m, true); sym::obs("lo", lo); for (int i = 0; i <= 4; i++) { auto p = c(lo + w * (L[i] / 14)); for (int j = 0; j < 2; j++) sym::eq(p[j], m(i % 4, j), "closed curve through every point and back", 1e-5); } double t = sym::real("t", -20, 20); bool in = t >= lo && t <= lo + w; sym::check(sym_throws<DomainError>([&] { c(t); }) == (in ? 0 : 1), "outside the range refused"); }
CASE(scerr) { Matrix<Real> m = track(3); Matrix<Real> d(3, 2); d(0, 0) = m(0, 0); d(0, 1) = m(0, 1); d(1, 0) = m(0, 0); d(1, 1) = m(0, 1); d(2, 0) = m(1, 0); d(2, 1) = m(1, 1); sym::obs("x", m(0, 0)); sym::check(THROWS(RealFuncInterpRuntimeError, SplineInterpParametricCurve<2> c(d)), "repeated points refused"); sym::check(THROWS(MatrixDimensionError, SplineInterpParametricCurve<3> c(m)), "dimension mismatch refused"); }
CASE(lclosed) { double x = sym::real("px", -4, 4), y = sym::real("py", -4, 4), t = sym::real("t", -1, 2); Matrix<Real> m(4, 2); double X[] = {0, 3, 3, 0}, Y[] = {0, 0, 4, 4}, L[] = {0, 3, 7, 10, 14}; for (int i = 0; i < 4; i++) { m(i, 0) = x + X[i]; m(i, 1) = y + Y[i]; } LinInterpParametricCurve<2> c(m, true); auto p = c(t); double s = 14 * (t - std::floor(t)); sym::obs("x", p[0]); for (int i = 0; i < 4; i++) if (s >= L[i] && s <= L[i + 1]) for (int j = 0; j < 2; j++) sym::eq((p[j] - m(i, j)) * (L[i + 1] - L[i]), (s - L[i]) * (m((i + 1) % 4, j) - m(i, j)), "closed curve goes round once per period, back to its first point", 1e-6); }
