// BOUNDS: polynomial fields with symbolic coefficients at symbolic points of [-1,1]^N (N = 1 to 4); every linear and quadratic field read in spherical and cylindrical coordinates at fixed directions and every radius; singular points under every policy; the predefined fields at every point, for every strength, moment, centre and angular velocity
// OUTSIDE: truncation and rounding of the numerical derivatives (exact for the polynomials used; 1e-5 elsewhere), reported evaluation counts
#include "h.h"
#include "mml/base/Function.h"
#include "mml/core/MetricTensor.h"
#include "mml/core/FieldOperations.h"
#include "mml/core/Fields.h"
namespace SF = ScalarFieldOperations; namespace VF = VectorFieldOperations; namespace SG = Singularity; typedef SingularityPolicy SP;
typedef VectorN<Real, 3> V3; typedef ScalarFunctionFromStdFunc<3> SFn; typedef VectorFunctionFromStdFunc<3> VFn;
template <int N> static VectorN<Real, N> pt() { VectorN<Real, N> p; for (int i = 0; i < N; i++) p[i] = sym::real("p", -1, 1); sym::obs("p", p[0]); return p; }
// quadratic forms  c + b.x + x'Ax/2  in N variables, with quartic terms on the axes
template <int N> struct Q { double c, b[N], a[N][N], k[N]; Q() { c = sym::real("c", -2, 2); for (int i = 0; i < N; i++) { b[i] = sym::real("b", -2, 2); k[i] = sym::real("k", -1, 1); for (int j = i; j < N; j++) a[i][j] = a[j][i] = sym::real("a", -2, 2); } }
  double operator()(const VectorN<Real, N> &x) const { double s = c; for (int i = 0; i < N; i++) { s = s + b[i] * x[i] + k[i] * x[i] * x[i] * x[i]; for (int j = 0; j < N; j++) s = s + a[i][j] * x[i] * x[j] / 2; } return s; }
  double d(int i, const VectorN<Real, N> &x) const { double s = b[i] + 3 * k[i] * x[i] * x[i]; for (int j = 0; j < N; j++) s = s + a[i][j] * x[j]; return s; }
  double dd(int i, int j, const VectorN<Real, N> &x) const { return a[i][j] + (i == j ? 6 * k[i] * x[i] : 0.0); } };
static FieldOperationConfig cfg(int order, bool err, bool caught = false) { FieldOperationConfig c; c.derivative_order = order; c.estimate_error = err; c.exception_policy = caught ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; return c; }
template <int N> static void cart() { Q<N> q; ScalarFunctionFromStdFunc<N> f([&](const VectorN<Real, N> &x) { return q(x); }); auto p = pt<N>(); auto g = SF::GradientCart<N>(f, p); auto d = SF::GradientCartDetailed<N>(f, p, cfg(0, false)); double lap = 0; for (int i = 0; i < N; i++) { sym::eq(g[i], q.d(i, p), "gradient"); sym::eq(d.value[i], q.d(i, p), "detailed gradient"); sym::eq(d.error[i], 0, "no error estimate asked for"); lap = lap + q.dd(i, i, p); } sym::eq(SF::LaplacianCart<N>(f, p), lap, "Laplacian", 1e-6); auto l = SF::LaplacianCartDetailed<N>(f, p, cfg(0, false)); sym::eq(l.value, lap, "detailed Laplacian", 1e-6); sym::check(d.IsSuccess() && l.IsSuccess(), "success"); }
CASE(cart1) { cart<1>(); } CASE(cart2) { cart<2>(); } CASE(cart3) { cart<3>(); } CASET(cart4) { cart<4>(); }
// every derivative order differentiates fields of that degree; other orders are refused
static const int ORD[] = {1, 2, 4, 6, 8};
CASEN(orders, 0, 4, 4) { int o = ORD[n]; double b[3] = {sym::real("b", -2, 2), sym::real("b", -2, 2), sym::real("b", -2, 2)}, a = o > 1 ? sym::real("a", -2, 2) : 0; auto p = pt<3>(); SFn f([&](const V3 &x) { double s = 0; for (int i = 0; i < 3; i++) s = s + b[i] * x[i]; return s + a * (x[0] * x[1] + x[2] * x[2]); }); double e[3] = {b[0] + a * p[1], b[1] + a * p[0], b[2] + 2 * a * p[2]}; auto g = SF::GradientCart<3>(f, p, o); auto d = SF::GradientCartDetailed<3>(f, p, cfg(o, false)), w = SF::GradientCartDetailed<3>(f, p, cfg(o, true)); for (int i = 0; i < 3; i++) sym::eq(g[i], e[i], "gradient"), sym::eq(d.value[i], e[i], "detailed gradient"), sym::eq(w.value[i], e[i], "detailed gradient"); double r = sym::real("r", 0.25, 1); Vec3Sph s(r, 0.75, p[2]); Vec3Cyl c(r, p[1], p[2]); V3 vs{r, 0.75, p[2]}, vc{r, p[1], p[2]}; auto dd = [&](const V3 &x, int i) { return b[i] + a * (i == 0 ? x[1] : i == 1 ? x[0] : 2 * x[2]); }; auto gs = SF::GradientSpher(f, s, o); auto gc = SF::GradientCyl(f, c, o); auto ds = SF::GradientSpherDetailed(f, s, cfg(o, false)); auto dc = SF::GradientCylDetailed(f, c, cfg(o, false)); double hs[3] = {1, r, r * std::sin(0.75)}, hc[3] = {1, r, 1}; for (int i = 0; i < 3; i++) sym::eq(gs[i] * hs[i], dd(vs, i), "spherical"), sym::eq(ds.value[i] * hs[i], dd(vs, i), "spherical detailed"), sym::eq(gc[i] * hc[i], dd(vc, i), "cylindrical"), sym::eq(dc.value[i] * hc[i], dd(vc, i), "cylindrical detailed"); }
CASE(ordersrefused) { double b = sym::real("b", -2, 2); SFn f([&](const V3 &x) { return b * x[0]; }); V3 p{0.5, 0.5, 0.5}; sym::obs("b", b); for (int o : {-1, 3, 5, 7, 9}) { Vec3Sph s(1, 1, 1); Vec3Cyl c(1, 1, 1); sym::check(THROWS(std::invalid_argument, SF::GradientCart<3>(f, p, o)) && THROWS(std::invalid_argument, SF::GradientSpher(f, s, o)) && THROWS(std::invalid_argument, SF::GradientCyl(f, c, o)), "unknown orders are refused"); sym::check(THROWS(std::invalid_argument, SF::GradientCartDetailed<3>(f, p, cfg(o, false))), "refused by the detailed form"); auto r = SF::GradientSpherDetailed(f, s, cfg(o, false, true)); sym::check(r.status == AlgorithmStatus::InvalidInput && !r.IsSuccess() && !r.error_message.empty(), "reported as invalid input"); } }
// vector fields in Cartesian coordinates; the two identities
CASE(vector) { Q<3> q[3]; VFn F([&](const V3 &x) { return V3{q[0](x), q[1](x), q[2](x)}; }); auto p = pt<3>(); double div = q[0].d(0, p) + q[1].d(1, p) + q[2].d(2, p); sym::eq(VF::DivCart<3>(F, p), div, "divergence"); sym::eq(VF::DivCartDetailed<3>(F, p, cfg(0, false)).value, div, "detailed divergence"); auto c = VF::CurlCart(F, p); auto d = VF::CurlCartDetailed(F, p, cfg(0, false)); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; double e = q[k].d(j, p) - q[j].d(k, p); sym::eq(c[i], e, "curl"); sym::eq(d.value[i], e, "detailed curl"); } }
CASE(curlgrad) { Q<3> q; SFn f([&](const V3 &x) { return q(x); }); VFn F([&](const V3 &x) { return SF::GradientCart<3>(f, x); }); V3 p{0.25, -0.5, 0.75}; auto c = VF::CurlCart(F, p); double l = SF::LaplacianCart<3>(f, p); for (int i = 0; i < 3; i++) sym::eq(c[i], 0, "the curl of a gradient vanishes", 1e-5); sym::eq(VF::DivCart<3>(F, p), l, "the divergence of the gradient is the Laplacian", 1e-5); }
CASE(divcurl) { Q<3> q[3]; VFn F([&](const V3 &x) { return V3{q[0](x), q[1](x), q[2](x)}; }); VFn C([&](const V3 &x) { auto c = VF::CurlCart(F, x); return V3{c[0], c[1], c[2]}; }); V3 p{0.25, -0.5, 0.75}; sym::eq(VF::DivCart<3>(C, p), 0, "the divergence of a curl vanishes", 1e-5); }
// error estimates are sums of the estimates of the derivatives
CASE(errors) { double k = sym::real("k", 0, 2), m = sym::real("m", 0, 2); SFn f([&](const V3 &x) { return std::exp(x[0]) * k + x[1] * m + x[2]; }); VFn F([&](const V3 &x) { return V3{std::exp(x[0]) * k, m * std::sin(x[1]), x[0] * x[2]}; }); V3 p{0.5, 0.25, 0.75}; sym::obs("k", k); auto g = SF::GradientCartDetailed<3>(f, p, cfg(0, true)); V3 e; Derivation::NDer4PartialByAll<3>(f, p, &e); for (int i = 0; i < 3; i++) sym::eq(g.error[i], e[i], "gradient error", 1e-13); double t = 0, u; for (int i = 0; i < 3; i++) { Derivation::DeriveVecPartial<3>(F, i, i, p, &u); t = t + std::fabs(u); } sym::eq(VF::DivCartDetailed<3>(F, p, cfg(0, true)).error, t, "divergence error", 1e-13); t = 0; for (int i = 0; i < 3; i++) { Derivation::DeriveSecPartial<3>(f, i, i, p, &u); t = t + std::fabs(u); } sym::eq(SF::LaplacianCartDetailed<3>(f, p, cfg(0, true)).error, t, "Laplacian error", 1e-11); auto c = VF::CurlCartDetailed(F, p, cfg(0, true)); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, l = (i + 2) % 3; double a, b; Derivation::DeriveVecPartial<3>(F, l, j, p, &a); Derivation::DeriveVecPartial<3>(F, j, l, p, &b); sym::eq(c.error[i], std::fabs(a) + std::fabs(b), "curl error", 1e-13); } Vec3Sph s(0.5, 0.25, 0.75); auto w = SF::GradientSpherDetailed(f, s, cfg(4, true)); sym::eq(w.error[1] * 0.5, e[1], "scaled error", 1e-13); sym::eq(w.error[2] * 0.5 * std::sin(0.25), e[2], "scaled error", 1e-13); }
// the same field in other coordinates:  phi(x) = c + b.x + x'Ax/2 and F(x) = m + Mx
struct Dir { double t, f; }; static const Dir DIRS[] = {{0.5, 0.75}, {1.25, -0.5}, {2.5, 1.75}, {1.5707963267948966, 3}, {0.25, -2}, {2, 0}};
struct Frame { V3 e[3]; }; static Frame spher(double t, double f) { double s = std::sin(t), c = std::cos(t), a = std::cos(f), b = std::sin(f); return {{V3{s * a, s * b, c}, V3{c * a, c * b, -s}, V3{-b, a, 0}}}; } static Frame cyl(double f) { double a = std::cos(f), b = std::sin(f); return {{V3{a, b, 0}, V3{-b, a, 0}, V3{0, 0, 1}}}; }
struct Lin { double m[3], M[3][3]; Lin() { for (int i = 0; i < 3; i++) { m[i] = sym::real("m", -2, 2); for (int j = 0; j < 3; j++) M[i][j] = sym::real("M", -2, 2); } } V3 operator()(const V3 &x) const { V3 r; for (int i = 0; i < 3; i++) r[i] = m[i] + M[i][0] * x[0] + M[i][1] * x[1] + M[i][2] * x[2]; return r; } V3 curl() const { return V3{M[2][1] - M[1][2], M[0][2] - M[2][0], M[1][0] - M[0][1]}; } double div() const { return M[0][0] + M[1][1] + M[2][2]; } };
struct Quad { double c, b[3], a[3][3]; Quad() { c = sym::real("c", -2, 2); for (int i = 0; i < 3; i++) { b[i] = sym::real("b", -2, 2); for (int j = i; j < 3; j++) a[i][j] = a[j][i] = sym::real("a", -2, 2); } } double operator()(const V3 &x) const { double s = c; for (int i = 0; i < 3; i++) { s = s + b[i] * x[i]; for (int j = 0; j < 3; j++) s = s + a[i][j] * x[i] * x[j] / 2; } return s; } V3 grad(const V3 &x) const { V3 g; for (int i = 0; i < 3; i++) g[i] = b[i] + a[i][0] * x[0] + a[i][1] * x[1] + a[i][2] * x[2]; return g; } double lap() const { return a[0][0] + a[1][1] + a[2][2]; } };
static V3 sx(const V3 &q) { double s = std::sin(q[1]); return V3{q[0] * s * std::cos(q[2]), q[0] * s * std::sin(q[2]), q[0] * std::cos(q[1])}; } static V3 cx(const V3 &q) { return V3{q[0] * std::cos(q[1]), q[0] * std::sin(q[1]), q[2]}; }
static double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static const double T = 1e-5;
CASEN(spher, 0, 3, 5) { double r = n % 2 ? 0.75 : sym::real("r", 0.25, 1); sym::obs("r", r); Quad q; Vec3Sph p(r, DIRS[n].t, DIRS[n].f); V3 v{r, DIRS[n].t, DIRS[n].f}, x = sx(v), G = q.grad(x); auto B = spher(v[1], v[2]); SFn f([&](const V3 &y) { return q(sx(y)); }); auto g = SF::GradientSpher(f, p); auto h = SF::GradientSpherDetailed(f, p).value; for (int i = 0; i < 3; i++) sym::eq(g[i], dot(G, B.e[i]), "gradient", T), sym::eq(h[i], dot(G, B.e[i]), "detailed gradient", T); sym::eq(SF::LaplacianSpher(f, p), q.lap(), "Laplacian", T); sym::eq(SF::LaplacianSpherDetailed(f, p).value, q.lap(), "detailed Laplacian", T); }
CASEN(vspher, 0, 3, 5) { double r = n % 2 ? 0.75 : sym::real("r", 0.25, 1); sym::obs("r", r); Lin l; V3 v{r, DIRS[n].t, DIRS[n].f}; VFn F([&](const V3 &y) { auto B = spher(y[1], y[2]); V3 w = l(sx(y)); return V3{dot(w, B.e[0]), dot(w, B.e[1]), dot(w, B.e[2])}; }); auto B = spher(v[1], v[2]); sym::eq(VF::DivSpher(F, v), l.div(), "divergence", T); sym::eq(VF::DivSpherDetailed(F, v).value, l.div(), "detailed divergence", T); auto c = VF::CurlSpher(F, v), d = VF::CurlSpherDetailed(F, v).value; for (int i = 0; i < 3; i++) sym::eq(c[i], dot(l.curl(), B.e[i]), "curl", T), sym::eq(d[i], dot(l.curl(), B.e[i]), "detailed curl", T); }
CASEN(cyl, 0, 3, 5) { double r = n % 2 ? 0.75 : sym::real("r", 0.25, 1), z = sym::real("z", -1, 1); sym::obs("z", z); Quad q; Vec3Cyl p(r, DIRS[n].f, z); V3 v{r, DIRS[n].f, z}, x = cx(v), G = q.grad(x); auto B = cyl(v[1]); SFn f([&](const V3 &y) { return q(cx(y)); }); auto g = SF::GradientCyl(f, p); auto h = SF::GradientCylDetailed(f, p).value; for (int i = 0; i < 3; i++) sym::eq(g[i], dot(G, B.e[i]), "gradient", T), sym::eq(h[i], dot(G, B.e[i]), "detailed gradient", T); sym::eq(SF::LaplacianCyl(f, p), q.lap(), "Laplacian", T); sym::eq(SF::LaplacianCylDetailed(f, p).value, q.lap(), "detailed Laplacian", T); }
CASEN(vcyl, 0, 3, 5) { double r = n % 2 ? 0.75 : sym::real("r", 0.25, 1), z = sym::real("z", -1, 1); sym::obs("z", z); Lin l; V3 v{r, DIRS[n].f, z}; VFn F([&](const V3 &y) { auto B = cyl(y[1]); V3 w = l(cx(y)); return V3{dot(w, B.e[0]), dot(w, B.e[1]), dot(w, B.e[2])}; }); auto B = cyl(v[1]); sym::eq(VF::DivCyl(F, v), l.div(), "divergence", T); sym::eq(VF::DivCylDetailed(F, v).value, l.div(), "detailed divergence", T); auto c = VF::CurlCyl(F, v), d = VF::CurlCylDetailed(F, v).value; for (int i = 0; i < 3; i++) sym::eq(c[i], dot(l.curl(), B.e[i]), "curl", T), sym::eq(d[i], dot(l.curl(), B.e[i]), "detailed curl", T); }
// general coordinates: contravariant components and a metric
CASEN(metricspher, 0, 2, 5) { double r = 0.75; Lin l; Quad q; V3 v{r, DIRS[n].t, DIRS[n].f}; MetricTensorSpherical g; double s = std::sin(v[1]), h[3] = {1, r, r * s}; auto B = spher(v[1], v[2]); VFn F([&](const V3 &y) { auto B = spher(y[1], y[2]); V3 w = l(sx(y)); return V3{dot(w, B.e[0]), dot(w, B.e[1]) / y[0], dot(w, B.e[2]) / (y[0] * std::sin(y[1]))}; }); sym::obs("m", l.m[0]); sym::eq(VF::Divergence<3>(F, v, g), l.div(), "covariant divergence", T); sym::eq(VF::DivergenceViaDet<3>(F, v, g), l.div(), "divergence from the determinant", T); SFn f([&](const V3 &y) { return q(sx(y)); }); auto d = SF::Gradient<3>(f, v, g); V3 G = q.grad(sx(v)); for (int i = 0; i < 3; i++) sym::eq(d[i] * h[i], dot(G, B.e[i]), "contravariant gradient", T); }
CASEN(metriccyl, 0, 2, 5) { double r = 0.75, z = n ? sym::real("z", -1, 1) : 0.5; Lin l; Quad q; V3 v{r, DIRS[n].f, z}; MetricTensorCylindrical g; double h[3] = {1, r, 1}; auto B = cyl(v[1]); VFn F([&](const V3 &y) { auto B = cyl(y[1]); V3 w = l(cx(y)); return V3{dot(w, B.e[0]), dot(w, B.e[1]) / y[0], w[2]}; }); sym::obs("m", l.m[0]); sym::eq(VF::Divergence<3>(F, v, g), l.div(), "covariant divergence", T); sym::eq(VF::DivergenceViaDet<3>(F, v, g), l.div(), "divergence from the determinant", T); SFn f([&](const V3 &y) { return q(cx(y)); }); auto d = SF::Gradient<3>(f, v, g); V3 G = q.grad(cx(v)); for (int i = 0; i < 3; i++) sym::eq(d[i] * h[i], dot(G, B.e[i]), "contravariant gradient", T); }
struct GM : MetricTensorField<3> { int k; GM(int k) : MetricTensorField<3>(0, 2), k(k) {} Real s(const V3 &p) const { return 1 + p[k] * p[k] / 4; } Real Component(int i, int j, const V3 &p) const override { return i != j ? 0 : s(p); } };
CASEN(metricgen, 0, 2, 2) { GM g(n); Lin l; auto p = V3{0.5, -0.25, 0.75}; VFn F([&](const V3 &y) { return l(y); }); double s = g.s(p), e = l.div() + 1.5 * (p[n] / 2) / s * l(p)[n]; sym::obs("m", l.m[0]); sym::eq(VF::Divergence<3>(F, p, g), e, "covariant divergence", T); sym::eq(VF::DivergenceViaDet<3>(F, p, g), e, "divergence from the determinant", T); Q<3> q; SFn f([&](const V3 &y) { return q(y); }); auto d = SF::Gradient<3>(f, p, g); for (int i = 0; i < 3; i++) sym::eq(d[i] * s, q.d(i, p), "gradient", T); }
CASE(metriccart) { Lin l; Q<3> q; MetricTensorCartesian3D g; VFn F([&](const V3 &y) { return l(y); }); SFn f([&](const V3 &y) { return q(y); }); auto p = pt<3>(); sym::eq(VF::Divergence<3>(F, p, g), l.div(), "covariant divergence", T); sym::eq(VF::DivergenceViaDet<3>(F, p, g), l.div(), "divergence from the determinant", T); auto d = SF::Gradient<3>(f, p, g); for (int i = 0; i < 3; i++) sym::eq(d[i], q.d(i, p), "gradient", T); }
// singular points
static const double TOL = SG::DEFAULT_SINGULARITY_TOL;
CASE(divide) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); sym::obs("a", a); int k = sym::pick(0, 4, "policy"); if (std::fabs(b) >= TOL) { SP P[] = {SP::Throw, SP::ReturnNaN, SP::ReturnInf, SP::Clamp, SP::ReturnZero}; sym::eq(SG::SafeDivide(a, b, P[k]) * b, a, "an ordinary quotient"); } else { sym::assume(std::fabs(b) < TOL / 2); if (k == 0) sym::check(THROWS(DomainError, SG::SafeDivide(a, b, SP::Throw, "here")), "refused"); else if (k == 1) { double x = SG::SafeDivide(1, 0, SP::ReturnNaN); sym::check(x != x, "not a number"); } else if (k == 2) sym::check(SG::SafeDivide(3, 0, SP::ReturnInf) == INFINITY && SG::SafeDivide(-3, 0, SP::ReturnInf) == -INFINITY, "infinite with the sign of the numerator"); else if (k == 3) { double c = SG::SafeDivide(a, b, SP::Clamp) * TOL; sym::eq(c, b >= 0 ? a : -a, "the quotient by the tolerance", 1e-9); } else sym::eq(SG::SafeDivide(a, b, SP::ReturnZero), 0, "zero"); } }
CASE(inverses) { double r = sym::real("r", 0.01, 4), t = sym::real("t", 0.01, 3.125), s = std::sin(t), c = std::cos(t); sym::assume(s > 0.01); sym::obs("r", r); sym::eq(SG::SafeInverseR(r) * r, 1, "1/r"); sym::eq(SG::SafeInverseR2(r) * r * r, 1, "1/r^2"); sym::eq(SG::SafeInverseRSinTheta(r, t) * r * s, 1, "1/(r sin)"); sym::eq(SG::SafeInverseR2Sin2Theta(r, t) * (r * s) * (r * s), 1, "1/(r sin)^2"); sym::eq(SG::SafeCotThetaOverR2(r, t) * r * r * s, c, "cot/r^2"); sym::check(!SG::IsAtSphericalSingularity(r, t) && SG::IsAtSphericalSingularity(0, t) && SG::IsAtSphericalSingularity(r, 0) && SG::IsAtCylindricalAxis(0) && !SG::IsAtCylindricalAxis(r), "singular points"); }
template <class F> static int outcome(F f) { try { f(); return 0; } catch (const DomainError &) { return 1; } catch (...) { return 2; } }
CASE(singular) { double b = sym::real("b", -2, 2), z = sym::real("z", -1, 1); sym::obs("b", b); SFn f([&](const V3 &x) { return b * (x[0] + x[1] + x[2] + x[0] * x[0] + x[2] * x[2]); }); VFn F([&](const V3 &x) { return V3{b * x[0] * x[2], b + x[1], b * x[2] * x[0] + x[1]}; }); for (int k = 0; k < 3; k++) { V3 v{k == 0 ? 0.0 : 0.5, k == 1 ? 0.0 : 1.0, k == 0 ? z : 0.25}; Vec3Sph s(v[0], v[1], v[2]); int want = k < 2; sym::check(outcome([&] { SF::GradientSpher(f, s); }) == want && outcome([&] { SF::GradientSpher(f, s, 4); }) == want && outcome([&] { SF::LaplacianSpher(f, s); }) == want && outcome([&] { VF::DivSpher(F, v); }) == want && outcome([&] { VF::CurlSpher(F, v); }) == want, "refused at the origin and on the poles only"); auto c1 = cfg(0, true, true); bool ok = !want; sym::check(SF::GradientSpherDetailed(f, s, c1).IsSuccess() == ok && SF::LaplacianSpherDetailed(f, s, c1).IsSuccess() == ok && VF::DivSpherDetailed(F, v, c1).IsSuccess() == ok && VF::CurlSpherDetailed(F, v, c1).IsSuccess() == ok, "reported"); if (!ok) sym::check(SF::GradientSpherDetailed(f, s, c1).status == AlgorithmStatus::InvalidInput, "as invalid input"); Vec3Cyl c(v[0], v[1], v[2]); int wc = k == 0; sym::check(outcome([&] { SF::GradientCyl(f, c); }) == wc && outcome([&] { SF::GradientCyl(f, c, 2); }) == wc && outcome([&] { SF::LaplacianCyl(f, c); }) == wc && outcome([&] { VF::DivCyl(F, v); }) == wc && outcome([&] { VF::CurlCyl(F, v); }) == wc, "refused on the axis only"); ok = !wc; sym::check(SF::GradientCylDetailed(f, c, c1).IsSuccess() == ok && SF::LaplacianCylDetailed(f, c, c1).IsSuccess() == ok && VF::DivCylDetailed(F, v, c1).IsSuccess() == ok && VF::CurlCylDetailed(F, v, c1).IsSuccess() == ok, "reported"); } }
// under ReturnZero the terms that blow up are left out, under Clamp the radius is the tolerance
CASE(policies) { double b = sym::real("b", -2, 2), c = sym::real("c", -2, 2), d = sym::real("d", -2, 2), z = sym::real("z", -1, 1); sym::obs("b", b); SFn f([&](const V3 &x) { return b * x[0] + c * x[1] + d * x[2] + b * x[0] * x[0] + c * x[2] * x[2]; }); Vec3Sph s(0, 1, z); auto g = SF::GradientSpher(f, s, SP::ReturnZero); sym::eq(g[0], b, "radial"); sym::eq(g[1], 0, "left out"); sym::eq(g[2], 0, "left out"); auto h = SF::GradientSpher(f, s, 4, SP::Clamp); sym::eq(h[1] * TOL, c, "clamped", 1e-6); sym::eq(h[2] * TOL, d + 2 * c * z, "clamped", 1e-6); Vec3Cyl y(0, 1, z); auto k = SF::GradientCyl(f, y, SP::ReturnZero); sym::eq(k[0], b, "radial"); sym::eq(k[1], 0, "left out"); sym::eq(k[2], d + 2 * c * z, "axial"); sym::eq(SF::LaplacianCyl(f, y, SP::ReturnZero), 2 * b + 2 * c, "Laplacian without the singular terms", T); sym::eq(SF::LaplacianSpher(f, s, SP::ReturnZero), 2 * b, "Laplacian without the singular terms", T); sym::eq(SF::LaplacianCylDetailed(f, y, {}, SP::ReturnZero).value, 2 * b + 2 * c, "detailed", T); }
// predefined fields
static double n2(const V3 &x) { return dot(x, x); } static V3 cr(const V3 &a, const V3 &b) { return V3{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static V3 sp(const char *n, double w = 4) { return V3{sym::real(n, -w, w), sym::real(n, -w, w), sym::real(n, -w, w)}; }
static void eq3(const V3 &a, const V3 &b, const char *w, double t = 1e-7) { for (int i = 0; i < 3; i++) sym::eq(a[i], b[i], w, t); }
static const double DV[][4] = {{1, 2, 2, 3}, {2, -3, 6, 7}, {-4, 4, 7, 9}, {0, 3, -4, 5}};
CASEN(radial, 0, 3, 3) { double t = sym::real("t", 0.125, 4), C = sym::real("C", -4, 4), r = DV[n][3] * t; sym::obs("t", t); V3 x{DV[n][0] * t, DV[n][1] * t, DV[n][2] * t}, s{r, 1.25, 0.5}; using namespace Fields; sym::eq(InverseRadialPotentialFieldCart(C, x) * r, C, "potential"); sym::eq(InverseRadialPotentialFieldCart(x) * r, 1, "unit potential"); sym::eq(InverseRadialFieldCart(C)(x) * r, C, "potential"); sym::eq(InverseRadialFieldSpher(C)(s) * r, C, "spherical"); sym::eq(InverseRadialPotentialFieldSpher(C, s) * r, C, "spherical"); sym::eq(InverseRadialPotentialFieldCyl(C, V3{3 * t, 1, -4 * t}) * 5 * t, C, "cylindrical"); sym::eq(InverseRadialPotentialFieldCyl(V3{3 * t, 1, -4 * t}) * 5 * t, 1, "cylindrical"); sym::eq(InverseRadialPotentialFieldSpher(s) * r, 1, "spherical"); V3 want{-C * x[0], -C * x[1], -C * x[2]}; double r3 = r * r * r; eq3(InverseRadialPotentialForceFieldCart(C, x) * r3, want, "force"); eq3(InverseRadialForceFieldCart(C)(x) * r3, want, "force"); eq3(InverseRadialPotentialForceFieldCart(x) * (C * r3), want, "unit force"); V3 ws{-C, 0, 0}; eq3(InverseRadialPotentialForceFieldSph(C, s) * (r * r), ws, "spherical force"); eq3(InverseRadialForceFieldSpher(C)(s) * (r * r), ws, "spherical force"); eq3(InverseRadialPotentialForceFieldSph(s) * (C * r * r), ws, "unit spherical force"); sym::eq(InverseRadialFieldCart()(x) * r, -1, "default"); sym::eq(InverseRadialFieldSpher()(s) * r, -1, "default"); }
CASE(radialops) { double C = sym::real("C", -4, 4); sym::obs("C", C); V3 p{0.75, -0.5, 0.5}; Fields::InverseRadialFieldCart f(C); Fields::InverseRadialForceFieldCart F(C); auto g = SF::GradientCart<3>(f, p); eq3(F(p), V3{g[0], g[1], g[2]}, "the force is the gradient with the documented sign", T); sym::eq(SF::LaplacianCart<3>(f, p), 0, "harmonic", T); sym::eq(VF::DivCart<3>(F, p), 0, "no sources", T); auto c = VF::CurlCart(F, p); eq3(V3{c[0], c[1], c[2]}, V3{0, 0, 0}, "conservative", T); }
CASE(vortex) { V3 w = sp("w"), x = sp("x"); double o = sym::real("o", -4, 4); sym::obs("o", o); eq3(Fields::VortexField(w)(x), cr(w, x), "w x r"); eq3(Fields::VortexField(o)(x), cr(V3{0, 0, o}, x), "about the z axis"); eq3(Fields::VortexField()(x), cr(V3{0, 0, 1}, x), "default"); Fields::VortexField F(w); V3 p{0.5, -0.25, 0.75}; sym::eq(VF::DivCart<3>(F, p), 0, "no divergence"); auto c = VF::CurlCart(F, p); eq3(V3{c[0], c[1], c[2]}, w * 2.0, "the curl is twice the angular velocity"); double s = sym::real("s", -4, 4); eq3(Fields::SaddleField(s)(x), V3{s * x[0], -s * x[1], 0}, "saddle"); eq3(Fields::SaddleField()(x), V3{x[0], -x[1], 0}, "unit saddle"); V3 d = sp("d"); double h = x[2] >= 0 ? s : -s; eq3(Fields::InfinitePlaneCurrentField(s, d)(x), d * h, "current sheet"); eq3(Fields::InfinitePlaneCurrentField(s)(x), V3{0, h, 0}, "current sheet"); }
CASEN(axis, 0, 3, 3) { double C = sym::real("C", -4, 4), l = DV[n][3]; V3 a{DV[n][0], DV[n][1], DV[n][2]}, x = sp("x"), o = sp("o"), e = a * (1 / l); sym::obs("C", C); V3 rp = x - e * dot(x, e); double r2 = n2(rp); sym::assume(r2 > 0.01); V3 v = Fields::PotentialVortexField(C, a)(x); eq3(v * r2, cr(e, rp) * C, "potential vortex", 1e-6); V3 z = Fields::PotentialVortexField(C, a)(a * C); eq3(z, V3{0, 0, 0}, "zero on the axis"); double q2 = x[0] * x[0] + x[1] * x[1]; if (q2 > 0.01) { V3 b = Fields::InfiniteLineCurrentField(C)(x), d = Fields::PotentialVortexField(C)(x), w{-C * x[1], C * x[0], 0}; eq3(b * q2, w, "line current"); eq3(d * q2, w, "potential vortex about z"); } eq3(Fields::InfiniteLineCurrentField(C)(V3{0, 0, C}), V3{0, 0, 0}, "zero on the wire"); }
CASEN(wire, 0, 3, 3) { double C = sym::real("C", -4, 4), t = sym::real("t", 0.125, 2), u = sym::real("u", -2, 2), s = sym::real("s", -4, 4), l = DV[n][3]; sym::obs("C", C); V3 a{DV[n][0], DV[n][1], DV[n][2]}, e = a * (1 / l), y = cr(e, V3{DV[(n + 1) % 4][0], DV[(n + 1) % 4][1], DV[(n + 1) % 4][2]}); double nn = std::sqrt(n2(y)); y = y * (1 / nn); V3 o{s, 2 - s, 1}; Line3D L(Pnt3Cart(o[0], o[1], o[2]), Vec3Cart(a[0], a[1], a[2])); V3 x = o + e * u + y * t; V3 b = Fields::InfiniteLineCurrentFieldGeneral(L, C)(x); eq3(b * t, cr(e, y) * C, "circles around the wire, inversely to the distance", 1e-6); V3 on = o + e * u; eq3(Fields::InfiniteLineCurrentFieldGeneral(L, C)(o), V3{0, 0, 0}, "zero on the wire"); }
CASEN(source, 0, 3, 3) { double t = sym::real("t", 0.125, 4), C = sym::real("C", -4, 4), r = DV[n][3] * t; sym::obs("t", t); V3 c = sp("c"), d{DV[n][0] * t, DV[n][1] * t, DV[n][2] * t}, x = c + d, m = sp("m"); double r3 = r * r * r, r5 = r3 * r * r; eq3(Fields::SourceSinkField(C, c)(x) * r3, d * C, "source"); eq3(Fields::SourceSinkField(C)(d) * r3, d * C, "source at the origin"); double md = dot(m, d); V3 w = d * (3 * md) - m * (r * r); eq3(Fields::DipoleField(m, c)(x) * r5, w, "dipole"); eq3(Fields::DipoleField(m)(d) * r5, w, "dipole at the origin"); eq3(Fields::SourceSinkField(C, c)(c), V3{0, 0, 0}, "zero in the centre"); eq3(Fields::DipoleField(m, c)(c), V3{0, 0, 0}, "zero in the centre"); }
CASE(sourceops) { double C = sym::real("C", -4, 4); V3 m = sp("m"), p{0.75, -0.5, 0.875}; sym::obs("C", C); Fields::SourceSinkField S(C, V3{0.125, 0.25, 0}); Fields::DipoleField D(m); Fields::PotentialVortexField P(C, V3{1, 2, 2}); Fields::InfiniteLineCurrentField I(C); const IVectorFunction<3> *F[] = {&S, &D, &P, &I}; for (auto f : F) { sym::eq(VF::DivCart<3>(*f, p), 0, "no divergence", T); auto c = VF::CurlCart(*f, p); eq3(V3{c[0], c[1], c[2]}, V3{0, 0, 0}, "no curl", T); } }
CASE(bumps) { double A = sym::real("A", -4, 4), s = sym::real("s", 0.25, 4); V3 c = sp("c"), x = sp("x"), d = x - c; double r2 = n2(d); sym::obs("A", A); Fields::GaussianBumpField g(A, s, c), g0(A, s); Fields::MexicanHatField h(A, s, c), h0(A, s); sym::eq(g(x), A * std::exp(-r2 / (s * s)), "Gaussian"); sym::eq(h(x), A * (1 - r2 / (s * s)) * std::exp(-r2 / (2 * (s * s))), "Mexican hat"); sym::eq(g(c), A, "peak"); sym::eq(h(c), A, "peak"); sym::eq(g0(V3{0, 0, 0}), A, "peak at the origin"); sym::eq(h0(V3{0, 0, 0}), A, "peak at the origin"); double u = h0(V3{s, 0, 0}); sym::eq(u, 0, "zero crossing"); }
