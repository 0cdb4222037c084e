// BOUNDS: metrics in 2 and 3 dimensions with every quadratic dependence on one or two coordinates (symbolic coefficients), at every point in range or symbolic coefficients at fixed points; every vector, covector and rank-2 tensor; spherical, cylindrical, Cartesian and Minkowski metrics
// OUTSIDE: rounding of the numerical derivatives (exact on the metrics used)
#include "h.h"
#include "mml/core/MetricTensor.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/core/CoordTransf/CoordTransf3D.h"
// metric diag-dominant with quadratic entries: g_ij = base_ij + c_ij * q_a(ij) * q_b(ij)
template <int N> struct Met : MetricTensorField<N> {
  double c[N][N]; Met() { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) c[i][j] = 0; }
  static int p(int i, int j) { return (i + j) % N; } static int r(int i, int j) { return (i * j + 1) % N; }
  double Component(int i, int j, const VectorN<Real, N> &q) const override { return (i == j ? 4. + i : 1.) + c[i][j] * q[p(i, j)] * q[r(i, j)]; }
  double d(int i, int j, int k, const VectorN<Real, N> &q) const { return c[i][j] * ((p(i, j) == k ? q[r(i, j)] : 0) + (r(i, j) == k ? q[p(i, j)] : 0)); }
};
static const double PT[3] = {0.5, -0.75, 0.25};
template <int N> static void coeffs(Met<N> &g, int n) { for (int i = 0; i < N; i++) for (int j = i; j < N; j++) g.c[i][j] = g.c[j][i] = 0.25 * (1 + i + 2 * j); double t = sym::real("t", -1, 1); int k = 0; for (int i = 0; i < N; i++) for (int j = i; j < N; j++, k++) if (k == n) g.c[i][j] = g.c[j][i] = t; sym::obs("t", t); }
template <int N> static VectorN<Real, N> pt() { VectorN<Real, N> q; for (int i = 0; i < N; i++) q[i] = PT[i]; return q; }
// Christoffel symbols against their definition: lowered symbols, symmetry, metric compatibility
template <int N> static void chris(int n) { Met<N> g; coeffs(g, n); auto q = pt<N>(); auto m = g.GetCovariantMetric(q); auto w = g.GetContravariantMetric(q); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) s = s + m(i, k) * w(k, j); sym::eq(s, i == j, "inverse metric"); sym::eq(m(i, j), g.Component(i, j, q), "metric"); }
  double G[N][N][N]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) G[i][j][k] = g.GetChristoffelSymbolSecondKind(i, j, k, q);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { sym::eq(G[i][j][k], G[i][k][j], "symmetric in the lower indices"); double low = 0, comp = 0; for (int l = 0; l < N; l++) low = low + m(i, l) * G[l][j][k], comp = comp + G[l][k][i] * m(l, j) + G[l][k][j] * m(i, l); sym::eq(2 * low, g.d(i, k, j, q) + g.d(i, j, k, q) - g.d(j, k, i, q), "Christoffel symbol of the second kind"); sym::eq(comp, g.d(i, j, k, q), "the metric is covariantly constant"); sym::eq(2 * g.GetChristoffelSymbolFirstKind(i, j, k, q), g.d(i, k, j, q) + g.d(j, k, i, q) - g.d(i, j, k, q), "Christoffel symbol of the first kind"); } }
CASEN(christoffel2, 0, 2, 2) { chris<2>(n); }
CASEN(christoffel3, 0, 3, 5) { chris<3>(n); }
// metric that depends on symbolic coordinates: polar-like
struct Polar2 : MetricTensorField<2> { double k; double Component(int i, int j, const VectorN<Real, 2> &q) const override { return i != j ? 0 : i ? k * q[0] * q[0] : 1; } };
CASE(polar) { Polar2 g; g.k = sym::real("k", 0.5, 2); double r = sym::real("r", 1, 4), f = sym::real("f", -1, 1); VectorN<Real, 2> q{r, f}; sym::obs("r", r); auto C = [&](int i, int j, int k) { return g.GetChristoffelSymbolSecondKind(i, j, k, q); }; sym::eq(C(0, 1, 1), -g.k * r, "radial"); sym::eq(C(1, 0, 1) * r, 1, "angular"); sym::eq(C(1, 1, 0) * r, 1, "angular"); sym::eq(C(0, 0, 0), 0, "zero"); sym::eq(C(0, 0, 1), 0, "zero"); sym::eq(C(1, 0, 0), 0, "zero"); sym::eq(C(1, 1, 1), 0, "zero"); sym::eq(g.GetChristoffelSymbolFirstKind(1, 1, 0, q), -g.k * r, "first kind"); sym::eq(g.GetChristoffelSymbolFirstKind(0, 1, 1, q), g.k * r, "first kind"); }
// covariant derivatives
template <int N> struct Fld : IVectorFunction<N> { double a[N], b[N]; VectorN<Real, N> operator()(const VectorN<Real, N> &q) const override { VectorN<Real, N> v; for (int i = 0; i < N; i++) v[i] = a[i] + b[i] * q[i] * q[(i + 1) % N]; return v; } double d(int i, int j, const VectorN<Real, N> &q) const { return b[i] * ((i == j ? q[(i + 1) % N] : 0) + ((i + 1) % N == j ? q[i] : 0)); } };
template <int N> static void cov(int n) { Met<N> g; coeffs(g, 100); g.c[0][N - 1] = g.c[N - 1][0] = 0.5; auto q = pt<N>(); Fld<N> v, w; for (int i = 0; i < N; i++) v.a[i] = sym::real("va", -4, 4), v.b[i] = sym::real("vb", -4, 4), w.a[i] = sym::real("wa", -4, 4), w.b[i] = i + 1; auto V = v(q), W = w(q);
  for (int j = 0; j < N; j++) { auto dv = g.CovariantDerivativeContravar(v, j, q); auto dw = g.CovariantDerivativeCovar(w, j, q); double lhs = 0, rhs = 0; for (int i = 0; i < N; i++) { double s = v.d(i, j, q), u = w.d(i, j, q); for (int k = 0; k < N; k++) s = s + g.GetChristoffelSymbolSecondKind(i, k, j, q) * V[k], u = u - g.GetChristoffelSymbolSecondKind(k, i, j, q) * W[k]; sym::eq(dv[i], s, "derivative of a contravariant field"); sym::eq(dw[i], u, "derivative of a covariant field"); sym::eq(g.CovariantDerivativeContravarComp(v, i, j, q), s, "one component"); sym::eq(g.CovariantDerivativeCovarComp(w, i, j, q), u, "one component"); lhs = lhs + v.d(i, j, q) * W[i] + V[i] * w.d(i, j, q); rhs = rhs + dv[i] * W[i] + V[i] * dw[i]; } sym::eq(lhs, rhs, "product rule"); } }
CASEN(covariant, 2, 3, 3) { if (n == 2) cov<2>(n); else cov<3>(n); }
// raising and lowering
template <int N> static void updown(int n) { Met<N> g; coeffs(g, n); auto q = pt<N>(); auto m = g.GetCovariantMetric(q); VectorN<Real, N> v = sVecN<N>("v", -4, 4), lo = g.LowerIndex(v, q), up = g.RaiseIndex(lo, q); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s = s + m(i, j) * v[j]; sym::eq(lo[i], s, "lowered vector"); sym::eq(up[i], v[i], "raised back"); }
  for (int x = 0; x < 2; x++) { Tensor2<N> t(2, 0); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t(i, j) = sym::real("t", -4, 4); auto r = g.RaiseIndex(t, x, q); sym::check(r.NumContravar() == 1 && r.NumCovar() == 1 && r.IsContravar(x) && !r.IsContravar(1 - x), "variance after raising"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) s = s + (x ? m(j, k) * r(i, k) : m(i, k) * r(k, j)); sym::eq(s, t(i, j), "raised index"); }
    auto b = g.LowerIndex(r, x, q); sym::check(b.NumContravar() == 0 && b.NumCovar() == 2 && !b.IsContravar(0) && !b.IsContravar(1), "variance after lowering"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sym::eq(b(i, j), t(i, j), "lowered back"); auto u = g.RaiseIndex(r, 1 - x, q); sym::check(u.NumContravar() == 2 && u.NumCovar() == 0 && u.IsContravar(0) && u.IsContravar(1), "both raised"); auto l = g.LowerIndex(u, 1 - x, q); sym::check(l.IsContravar(x) && !l.IsContravar(1 - x) && l.NumCovar() == 1, "one lowered"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sym::eq(l(i, j), r(i, j), "one lowered"); } }
CASEN(updown2, 0, 1, 2) { updown<2>(n); }
CASEN(updown3, 1, 1, 2) { updown<3>(n); }
// the standard metrics are the inner products of the coordinate basis
CASE(standard) { double r = sym::real("r", 0.5, 4), th = sym::real("th", 0.25, 2.875), z = sym::real("z", -4, 4); sym::obs("r", r); double s = std::sin(th); sym::assume(s > 0.1); VectorN<Real, 3> q{r, th, z}; MetricTensorSpherical a; MetricTensorSphericalContravar b; MetricTensorCylindrical c; MetricTensorCartesian3D d; MetricTensorMinkowski e; CoordTransfSphericalToCartesian t; Vec3Cart B[3]; for (int i = 0; i < 3; i++) B[i] = t.getBasisVec(i, Vector3Spherical{r, th, z}); auto at = a(q), bt = b(q), ct = c(q), dt = d(q); auto et = e(VectorN<Real, 4>{r, th, z, r}); sym::check(at.NumCovar() == 2 && at.NumContravar() == 0 && !at.IsContravar(0) && !at.IsContravar(1) && bt.NumContravar() == 2 && bt.NumCovar() == 0 && bt.IsContravar(0) && bt.IsContravar(1) && ct.NumCovar() == 2 && dt.NumCovar() == 2 && et.NumCovar() == 2, "variance"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sym::eq(at(i, j), ScalarProduct(B[i], B[j]), "spherical metric"); sym::eq(dt(i, j), i == j, "Cartesian metric"); sym::eq(ct(i, j), i == j ? (i == 1 ? r * r : 1) : 0, "cylindrical metric"); double p = 0; for (int k = 0; k < 3; k++) p = p + at(i, k) * bt(k, j); sym::eq(p, i == j, "spherical inverse metric"); } for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) sym::eq(et(i, j), i == j ? (i ? 1 : -1) : 0, "Minkowski metric"); auto m = c.GetContravariantMetric(q); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(m(i, j) * (i == 1 ? r * r : 1), i == j, "cylindrical inverse metric"); auto ma = a.GetContravariantMetric(q); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(ma(i, j), bt(i, j), "both inverse metrics agree"); VectorN<Real, 3> q0{0., th, z}, q1{r, 0., z}; sym::check(THROWS(MMLException, b.Component(1, 1, q0)) && THROWS(MMLException, b.Component(2, 2, q0)) && THROWS(MMLException, b.Component(2, 2, q1)) && NOTHROW(b.Component(1, 1, q1)), "singular points are refused"); }
CASE(cylchris) { MetricTensorCylindrical g; double r = sym::real("r", 1, 4); VectorN<Real, 3> q{r, sym::real("f", -1, 1), sym::real("z", -1, 1)}; sym::obs("r", r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) sym::eq(g.GetChristoffelSymbolSecondKind(i, j, k, q) * r, i == 0 && j == 1 && k == 1 ? -r * r : i == 1 && j != k && j + k == 1 ? 1 : 0, "cylindrical Christoffel symbol"); }
CASEN(sphchris, 0, 2, 2) { MetricTensorSpherical g; static const double TH[] = {0.5, 1.25, 2.5}; double r = sym::real("r", 1, 4), th = TH[n], s = std::sin(th), c = std::cos(th); VectorN<Real, 3> q{r, th, 0.25}; sym::obs("r", r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { double e = 0; if (i == 0 && j == k && j) e = j == 1 ? -r * r : -r * r * s * s; else if (i == 1 && j + k == 1) e = 1; else if (i == 1 && j == 2 && k == 2) e = -r * s * c; else if (i == 2 && j != k && j + k == 2) e = 1; else if (i == 2 && j != k && j + k == 3) e = r * c / s; sym::eq(g.GetChristoffelSymbolSecondKind(i, j, k, q) * r, e, "spherical Christoffel symbol"); } }
// metric of a transformation: J^T J
struct Quad : CoordTransfWithInverse<VectorN<Real, 2>, VectorN<Real, 2>, 2> { typedef VectorN<Real, 2> V; double a, b; ScalarFunctionFromStdFunc<2> f, g; Quad(double A, double B) : a(A), b(B), f([this](const V &x) { return x[0] + b * x[1]; }), g([this](const V &x) { return x[1] + a * x[0] * x[0]; }) {} V transf(const V &x) const override { return V{f(x), g(x)}; } V transfInverse(const V &x) const override { return x; } const IScalarFunction<2> &coordTransfFunc(int i) const override { if (i) return g; return f; } const IScalarFunction<2> &inverseCoordTransfFunc(int i) const override { return f; } };
CASE(fromtransf) { Quad t(sym::real("a", -2, 2), sym::real("b", -2, 2)); MetricTensorFromCoordTransf<VectorN<Real, 2>, VectorN<Real, 2>, 2> g(t); VectorN<Real, 2> q{sym::real("x", -1, 1), sym::real("y", -1, 1)}; sym::obs("x", q[0]); double J[2][2] = {{1, t.b}, {2 * t.a * q[0], 1}}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym::eq(g.Component(i, j, q), J[0][i] * J[0][j] + J[1][i] * J[1][j], "metric of a transformation"); }
CASE(fromrot) { CoordTransfCart3DRotationEuler t(sym::real("a", -3, 3), sym::real("b", -3, 3), 0.5); MetricTensorFromCoordTransf<Vec3Cart, Vec3Cart, 3> g(t); VectorN<Real, 3> q{sym::real("x", -1, 1), 0.5, -0.5}; sym::obs("x", q[0]); auto m = g.GetCovariantMetric(q); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(m(i, j), i == j, "a rotation keeps distances"); }
