// BOUNDS: every rotation angle, oblique angle, boost, scale and quaternion in range, at every point and for every vector; linear maps in 3x3 shape families; tensors of rank 2 to 5 with every index variance under quadratic maps with symbolic coefficients
// OUTSIDE: rounding of the numerical Jacobians (exact on the linear and quadratic maps used), points on the polar axis
#include "h.h"
#include "la.h"
#include "mml/core/CoordTransf.h"
#include "mml/core/CoordTransf/CoordTransf2D.h"
#include "mml/core/CoordTransf/CoordTransf3D.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/core/CoordTransf/CoordTransfLorentz.h"
#include <new>
template <int N> using MM = MatrixNM<Real, N, N>;
template <int N> static MM<N> id() { MM<N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = i == j; return m; }
template <int N> static MM<N> tr(const MM<N> &a) { MM<N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = a(j, i); return m; }
template <int N> static MM<N> mul(const MM<N> &a, const MM<N> &b) { MM<N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) s = s + a(i, k) * b(k, j); m(i, j) = s; } return m; }
// everything a linear transformation offers, against its matrices
template <int N, class VF, class VT> static void maps(CoordTransfWithInverse<VF, VT, N> &t, const MM<N> &m, const MM<N> &w, const VF &p, const VT &q) {
  auto fwd = t.transf(p); auto bwd = t.transfInverse(q); auto op = t(p);
  for (int i = 0; i < N; i++) { double s = 0, r = 0; for (int j = 0; j < N; j++) s = s + m(i, j) * p[j], r = r + w(i, j) * q[j]; sym::eq(fwd[i], s, "transformed point"); sym::eq(op[i], s, "transformed point by components"); sym::eq(t.coordTransfFunc(i)(p), s, "component function"); sym::eq(bwd[i], r, "inverse of a point"); sym::eq(t.inverseCoordTransfFunc(i)(q), r, "inverse component function"); }
  auto rt = t.transfInverse(fwd); auto tr2 = t.transf(bwd); for (int i = 0; i < N; i++) sym::eq(rt[i], p[i], "round trip"), sym::eq(tr2[i], q[i], "inverse round trip");
}
template <int N, class VF, class VT> static void derivs(CoordTransfWithInverse<VF, VT, N> &t, const MM<N> &m, const MM<N> &w, const VF &p, const VT &q, const VF &u, const VT &v) {
  auto j = t.jacobian(p); eqM(j, m, N, N, "Jacobian");
  for (int k = 0; k < N; k++) { auto a = t.getBasisVec(k, p); auto b = t.getInverseBasisVec(k, p); auto c = t.getContravarBasisVec(k, q); auto d = t.getInverseContravarBasisVec(k, q); for (int i = 0; i < N; i++) sym::eq(a[i], m(i, k), "covariant basis vector"), sym::eq(b[i], m(k, i), "inverse basis vector"), sym::eq(c[i], w(k, i), "contravariant basis vector"), sym::eq(d[i], w(i, k), "inverse contravariant basis vector"); }
  auto a = t.transfVecContravariant(u, p); auto b = t.transfInverseVecCovariant(v, p); auto c = t.transfVecCovariant(u, q); auto d = t.transfInverseVecContravariant(v, q);
  for (int i = 0; i < N; i++) { double A = 0, B = 0, C = 0, D = 0; for (int k = 0; k < N; k++) A = A + m(i, k) * u[k], B = B + m(k, i) * v[k], C = C + w(k, i) * u[k], D = D + w(i, k) * v[k]; sym::eq(a[i], A, "contravariant vector"); sym::eq(b[i], B, "covariant vector back"); sym::eq(c[i], C, "covariant vector"); sym::eq(d[i], D, "contravariant vector back"); }
}
template <class V, int N> static V sv(const char *n) { V v; for (int i = 0; i < N; i++) v[i] = sym::real(n, -4, 4); return v; }
template <int N, class VF, class VT> static void linear(CoordTransfWithInverse<VF, VT, N> &t, const MM<N> &m, const MM<N> &w) {
  eqM(mul(m, w), id<N>(), N, N, "inverse matrix"); VF p = sv<VF, N>("p"), u = sv<VF, N>("u"); VT q = sv<VT, N>("q"), v = sv<VT, N>("v"); sym::obs("p", p[0]); maps(t, m, w, p, q);
  VF p0; VT q0; for (int i = 0; i < N; i++) p0[i] = p[i] / 8, q0[i] = q[i] / 8; derivs(t, m, w, p0, q0, u, v);
}
static MM<3> rot(int axis, double c, double s) { MM<3> m = id<3>(); int a = (axis + 1) % 3, b = (axis + 2) % 3; m(a, a) = c; m(a, b) = -s; m(b, a) = s; m(b, b) = c; return m; }
typedef Vector2Cartesian V2; typedef Vec3Cart V3;
CASE(rot2) { double a = sym::real("a", -4, 4), c = std::cos(a), s = std::sin(a); CoordTransfCart2DRotation t(a); MM<2> m; m(0, 0) = c; m(0, 1) = -s; m(1, 0) = s; m(1, 1) = c; linear(t, m, tr(m)); }
CASE(rotx) { double a = sym::real("a", -4, 4); CoordTransfCart3DRotationXAxis t(a); auto m = rot(0, std::cos(a), std::sin(a)); linear(t, m, tr(m)); }
CASE(roty) { double a = sym::real("a", -4, 4); CoordTransfCart3DRotationYAxis t(a); auto m = rot(1, std::cos(a), std::sin(a)); linear(t, m, tr(m)); }
CASE(rotz) { double a = sym::real("a", -4, 4); CoordTransfCart3DRotationZAxis t(a); auto m = rot(2, std::cos(a), std::sin(a)); linear(t, m, tr(m)); }
CASE(euler) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), g = sym::real("g", -4, 4); CoordTransfCart3DRotationEuler t(a, b, g); auto m = mul(mul(rot(2, std::cos(a), std::sin(a)), rot(1, std::cos(b), std::sin(b))), rot(2, std::cos(g), std::sin(g))); linear(t, m, tr(m)); }
CASE(oblique2) { double a = sym::real("a", 0.1, 3), c = std::cos(a), s = std::sin(a); sym::assume(s > 0.01); CoordTransfObliqueToCartesian2D t(a); CoordTransfCartesianToOblique2D i(a); MM<2> m, w; m(0, 0) = 1; m(0, 1) = c; m(1, 0) = 0; m(1, 1) = s; w(0, 0) = 1; w(0, 1) = -c / s; w(1, 0) = 0; w(1, 1) = 1 / s; linear(t, m, w); linear(i, w, m); }
CASE(oblique2refused) { double s = sym::real("s", -4, 4); sym::obs("s", s); int k = sym::pick(-1, 1, "k"); sym::check(THROWS(ArgumentError, CoordTransfObliqueToCartesian2D(k * Constants::PI)) && THROWS(ArgumentError, CoordTransfCartesianToOblique2D(k * Constants::PI)), "parallel axes are refused"); sym::check(NOTHROW(CoordTransfObliqueToCartesian2D(k * Constants::PI + 0.001)) && NOTHROW(CoordTransfCartesianToOblique2D(k * Constants::PI + 0.001)), "others are accepted"); }
// three perpendicular base vectors of any length and handedness
CASEN(orthogonal, 0, 3, 5) { double a = sym::real("a", -4, 4), l[3] = {sym::real("l", 0.25, 4), sym::real("l", 0.25, 4), sym::real("l", 0.25, 4)}; int flip = n & 1; auto r = n / 2 ? mul(rot(n / 2 - 1, 0.6, 0.8), rot(2, std::cos(a), std::sin(a))) : rot(2, std::cos(a), std::sin(a)); MM<3> m, w; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double f = flip && i == 2 ? -l[i] : l[i]; m(i, j) = f * r(i, j); w(j, i) = r(i, j) / f; } CoordTransf3DCartOrthogonal t(V3{m(0, 0), m(0, 1), m(0, 2)}, V3{m(1, 0), m(1, 1), m(1, 2)}, V3{m(2, 0), m(2, 1), m(2, 2)}); linear(t, m, w); eqM(t.getTransfMatrix(), m, 3, 3, "matrix"); eqM(t.getInvTransfMatrix(), w, 3, 3, "inverse matrix"); sym::check(t.IsRightHanded() == !flip, "handedness"); }
CASE(orthorefused) { V3 a{1, 0, 0}, b{0, 1, 0}, c{0, 0, 1}; int k = sym::pick(0, 2, "k"); double e = sym::real("e", -1, 1); sym::assume(e > 1e-3 || e < -1e-3); sym::obs("e", e); (k == 0 ? a[1] : k == 1 ? b[2] : c[0]) = e; sym::check(THROWS(GeometryError, CoordTransf3DCartOrthogonal(a, b, c)), "base vectors that are not perpendicular are refused"); }
static MM<3> shape3(int n) { static const double S[6][9] = {{2, 0, 0, 0, -1, 0, 0, 0, 3}, {1, 2, 0, 0, 1, -1, 0, 0, 2}, {0, 1, 0, 0, 0, 2, -1, 0, 0}, {1, 2, 3, 0, 1, 4, 5, 6, 0}, {2, -1, 0, -1, 2, -1, 0, -1, 2}, {-1, 1, 2, 3, -1, 1, -1, 3, 4}}; MM<3> m; double k = sym::real("k", 0.5, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = S[n][3 * i + j] * (i == 1 ? k : 1); return m; }
static double det(const MM<3> &m) { return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)); }
static MM<3> inv(const MM<3> &m) { MM<3> w; double d = det(m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3; w(i, j) = (m(a, c) * m(b, e) - m(a, e) * m(b, c)) / d; } return w; }
CASEN(general, 0, 5, 5) { MM<3> m = shape3(n); CoordTransf3DCartGeneral t(m); auto w = inv(m); linear(t, m, w); eqM(t.getTransfMatrix(), m, 3, 3, "matrix"); eqM(t.getInvTransfMatrix(), w, 3, 3, "inverse matrix"); sym::check(t.IsRightHanded() == (det(m) > 0), "handedness"); MM<3> z = m; for (int j = 0; j < 3; j++) z(2, j) = m(0, j) + m(1, j); sym::check(THROWS(SingularMatrixError, (CoordTransf3DCartGeneral(z))), "a singular matrix is refused"); }
CASEN(oblique3, 0, 5, 5) { MM<3> m = shape3(n); V3 b[3]; for (int i = 0; i < 3; i++) b[i] = V3{m(0, i), m(1, i), m(2, i)}; CoordTransfCartesianToOblique3D t(b[0], b[1], b[2]); linear(t, inv(m), m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(ScalarProduct(t.Base(i), t.Dual(j)), i == j, "dual basis"), sym::eq(t.Base(i)[j], b[i][j], "basis"); sym::check(t.IsRightHanded() == (det(m) > 0), "handedness"); V3 dep = b[0] + b[1]; sym::check(THROWS(SingularMatrixError, CoordTransfCartesianToOblique3D(b[0], b[1], dep)), "dependent base vectors are refused"); }
// quaternion rotations; any nonzero quaternion is normalised
static MM<3> qmat(double w, double x, double y, double z) { double n = w * w + x * x + y * y + z * z; MM<3> m; m(0, 0) = (w * w + x * x - y * y - z * z) / n; m(0, 1) = 2 * (x * y - w * z) / n; m(0, 2) = 2 * (x * z + w * y) / n; m(1, 0) = 2 * (x * y + w * z) / n; m(1, 1) = (w * w - x * x + y * y - z * z) / n; m(1, 2) = 2 * (y * z - w * x) / n; m(2, 0) = 2 * (x * z - w * y) / n; m(2, 1) = 2 * (y * z + w * x) / n; m(2, 2) = (w * w - x * x - y * y + z * z) / n; return m; }
static const double Q4[][4] = {{1, 0, 0, 0}, {1, 2, 3, 4}, {0.5, -0.5, 0.5, 0.5}, {0, 1, -1, 2}, {3, 0, 0, -4}, {0.6, 0, 0.8, 0}};
CASEN(quat, 0, 5, 5) { double k = n % 2 ? sym::real("k", 0.25, 4) : 1, w = k * Q4[n][0], x = k * Q4[n][1], y = k * Q4[n][2], z = k * Q4[n][3], nn = w * w + x * x + y * y + z * z; if (n % 2) sym::assume((nn - 1) * (nn - 1) > 1e-4); CoordTransfCart3DRotationQuaternion t(Quaternion(w, x, y, z)); auto m = qmat(w, x, y, z); linear(t, m, tr(m)); eqM(t.GetTransformationMatrix(), m, 3, 3, "matrix"); eqM(t.GetInverseMatrix(), tr(m), 3, 3, "inverse matrix"); auto c = CoordTransfCart3DRotationQuaternion(Quaternion(1, 2, -1, 0.5)); V3 p = sv<V3, 3>("p"); auto a = t.Compose(c).transf(p); auto b = c.transf(t.transf(p)); for (int i = 0; i < 3; i++) sym::eq(a[i], b[i], "composition: this, then the other"); auto g = t.Interpolate(c, 0).transf(p), h = t.Interpolate(c, 1).transf(p), e = t.transf(p), f = c.transf(p); for (int i = 0; i < 3; i++) sym::eq(g[i], e[i], "interpolation starts at this"), sym::eq(h[i], f[i], "interpolation ends at the other"); }
CASE(quataxis) { double a = sym::real("a", -3, 3), c = std::cos(a / 2), s = std::sin(a / 2); sym::obs("a", a); int k = sym::pick(0, 2, "axis"); V3 ax{0, 0, 0}; ax[k] = 1; CoordTransfCart3DRotationQuaternion t(ax, a); auto m = rot(k, c * c - s * s, 2 * s * c); V3 p = sv<V3, 3>("p"), q = sv<V3, 3>("q"); maps(t, m, tr(m), p, q); }
CASE(quateuler) { double y = sym::real("y", -3, 3), p = sym::real("p", -3, 3), r = sym::real("r", -3, 3); auto R = [](int k, double a) { double c = std::cos(a * 0.5), s = std::sin(a * 0.5); return rot(k, c * c - s * s, 2 * s * c); }; auto m = mul(mul(R(2, y), R(1, p)), R(0, r)), w = mul(mul(R(0, r), R(1, p)), R(2, y)); auto t = CoordTransfCart3DRotationQuaternion::FromEulerZYX(y, p, r), u = CoordTransfCart3DRotationQuaternion::FromEulerXYZ(r, p, y); V3 a = sv<V3, 3>("p"), b = sv<V3, 3>("q"); sym::obs("a", a[0]); maps(t, m, tr(m), a, b); maps(u, w, tr(w), a, b); }
CASEN(quatmat, 0, 5, 5) { auto &Q = Q4[n]; auto m = qmat(Q[0], Q[1], Q[2], Q[3]); CoordTransfCart3DRotationQuaternion t(m); linear(t, m, tr(m)); }
CASE(lorentz) { double v = sym::real("v", 0, 0.96875), g = 1 / std::sqrt(1 - v * v); CoordTransfLorentzXAxis t(v); MM<4> m = id<4>(), w = id<4>(); m(0, 0) = m(1, 1) = w(0, 0) = w(1, 1) = g; m(0, 1) = m(1, 0) = -v * g; w(0, 1) = w(1, 0) = v * g; linear(t, m, w); Vector4Minkowski p = sv<Vector4Minkowski, 4>("p"), q = t.transf(p); auto s = [](const Vector4Minkowski &x) { return x[0] * x[0] - x[1] * x[1] - x[2] * x[2] - x[3] * x[3]; }; sym::eq(s(p), s(q), "interval"); Vector4Minkowski c{1, v, 0, 0}, d = t.transf(c); sym::eq(d[1], 0, "the moving frame is at rest in itself"); sym::eq(d[0] * g, 1, "time dilation"); double b = sym::real("b", -4, 4); sym::check(THROWS(std::range_error, CoordTransfLorentzXAxis{b}) == (b < 0 || b >= 1), "velocities outside [0, 1) are refused"); }
// polar, cylindrical and spherical coordinates
CASE(polar) { CoordTransfPolarToCartesian2D t; double x = sym::real("x", -4, 4), y = sym::real("y", -4, 4); sym::assume(x * x + y * y > 0.01); sym::obs("x", x); auto p = t.transfInverse(V2{x, y}); auto b = t.transf(p); sym::eq(b[0], x, "round trip"); sym::eq(b[1], y, "round trip"); sym::eq(p[0] * p[0], x * x + y * y, "radius"); sym::check(p[0] >= 0 && p[1] <= Constants::PI + 1e-9 && p[1] >= -Constants::PI - 1e-9, "range"); double r = sym::real("r", 0.1, 4), f = sym::real("f", -3.125, 3.125); auto c = t.transf(Vector2Polar{r, f}); sym::eq(c[0] * c[0] + c[1] * c[1], r * r, "radius is kept"); sym::eq(c[0], r * std::cos(f), "x"); sym::eq(c[1], r * std::sin(f), "y"); sym::eq(t.transfInverse(c)[0], r, "radius"); for (int i = 0; i < 2; i++) sym::eq(t.coordTransfFunc(i)(VectorN<Real, 2>{r, f}), c[i], "component function"), sym::eq(t.inverseCoordTransfFunc(i)(VectorN<Real, 2>{x, y}), p[i], "inverse component function"); }
CASE(cylindrical) { double x = sym::real("x", -4, 4), y = sym::real("y", -4, 4), z = sym::real("z", -4, 4); sym::assume(x * x + y * y > 0.01); sym::obs("x", x); CoordTransfCylindricalToCartesian t; CoordTransfCartesianToCylindrical w; V3 q{x, y, z}; auto p = t.transfInverse(q), p2 = w.transf(q); auto b = t.transf(p), b2 = w.transfInverse(p); for (int i = 0; i < 3; i++) sym::eq(b[i], q[i], "round trip"), sym::eq(b2[i], q[i], "round trip"), sym::eq(p[i], p2[i], "both directions agree"), sym::eq(t.inverseCoordTransfFunc(i)(q), p[i], "component"), sym::eq(w.coordTransfFunc(i)(q), p[i], "component"), sym::eq(t.coordTransfFunc(i)(p), q[i], "component"), sym::eq(w.inverseCoordTransfFunc(i)(p), q[i], "component"); sym::eq(p[0] * p[0], x * x + y * y, "radius"); sym::check(p[0] >= 0, "radius"); sym::eq(p[2], z, "height"); double r = sym::real("r", 0.1, 4), f = sym::real("f", -3, 3); auto c = t.transf(Vector3Cylindrical{r, f, z}); sym::eq(c[0], r * std::cos(f), "x"); sym::eq(c[1], r * std::sin(f), "y"); sym::eq(c[2], z, "z"); sym::eq(t.transfInverse(c)[0], r, "radius"); }
CASE(spherical) { double x = sym::real("x", -4, 4), y = sym::real("y", -4, 4), z = sym::real("z", -4, 4); sym::assume(x * x + y * y > 0.01); sym::obs("x", x); CoordTransfSphericalToCartesian t; CoordTransfCartesianToSpherical w; V3 q{x, y, z}; auto p = t.transfInverse(q), p2 = w.transf(q); auto b = t.transf(p), b2 = w.transfInverse(p); for (int i = 0; i < 3; i++) sym::eq(b[i], q[i], "round trip"), sym::eq(b2[i], q[i], "round trip"), sym::eq(p[i], p2[i], "both directions agree"), sym::eq(t.inverseCoordTransfFunc(i)(q), p[i], "component"), sym::eq(w.coordTransfFunc(i)(q), p[i], "component"), sym::eq(t.coordTransfFunc(i)(p), q[i], "component"), sym::eq(w.inverseCoordTransfFunc(i)(p), q[i], "component"); sym::eq(p[0] * p[0], x * x + y * y + z * z, "radius"); sym::check(p[0] >= 0, "radius"); sym::eq(p[0] * std::cos(p[1]), z, "height"); V3 o{0, 0, 0}; auto po = t.transfInverse(o), po2 = w.transf(o); sym::check(po[0] == 0 && po[1] == 0 && po2[0] == 0 && po2[1] == 0, "origin"); V3 zz{0, 0, z}; auto pz = w.transf(zz); auto bz = t.transf(pz); for (int i = 0; i < 3; i++) sym::eq(bz[i], zz[i], "points on the axis"); }
CASE(sphbasis) { double r = sym::real("r", 0.1, 4), th = sym::real("th", 0.1, 3), ph = sym::real("ph", -3, 3), ct = std::cos(th), st = std::sin(th), cp = std::cos(ph), sp = std::sin(ph); sym::obs("r", r); CoordTransfSphericalToCartesian t; Vector3Spherical p{r, th, ph}; auto x = t.transf(p); sym::eq(x[0], r * st * cp, "x"); sym::eq(x[1], r * st * sp, "y"); sym::eq(x[2], r * ct, "z"); double J[3][3] = {{st * cp, r * ct * cp, -r * st * sp}, {st * sp, r * ct * sp, r * st * cp}, {ct, -r * st, 0}}, h[3] = {1, r, r * st}; V3 e[3]; for (int k = 0; k < 3; k++) { auto b = t.getBasisVec(k, p); auto d = t.getInverseBasisVec(k, p), di = t.getInverseUnitBasisVec(k, p); e[k] = t.getUnitBasisVec(k, p); for (int i = 0; i < 3; i++) sym::eq(b[i], J[i][k], "basis vector is the derivative"), sym::eq(e[k][i] * h[k], J[i][k], "unit basis vector"), sym::eq(d[i], J[k][i], "inverse basis vector"), sym::eq(di[i] * h[i], J[k][i], "inverse unit basis vector"); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(ScalarProduct(e[i], e[j]), i == j, "orthonormal"); V3 c = VectorProduct(e[0], e[1]); for (int i = 0; i < 3; i++) sym::eq(c[i], e[2][i], "right-handed"); }
// a copy is independent of the original
template <class T, class V> static void copies(const T &other, const T &orig, const V &p) { alignas(T) unsigned char buf[sizeof(T)]; T *a = new (buf) T(orig); T c(*a); auto want = orig.transf(p); auto wantInv = orig.transfInverse(p); a->~T(); a = new (buf) T(other); auto got = c(p); for (int i = 0; i < (int)V().size(); i++) sym::eq(got[i], want[i], "a copy keeps its own functions"), sym::eq(c.transf(p)[i], want[i], "a copy keeps its own matrix"), sym::eq(c.inverseCoordTransfFunc(i)(p), wantInv[i], "a copy keeps its own inverse functions"), sym::eq(c.transfInverse(p)[i], wantInv[i], "a copy keeps its own inverse"); a->~T(); }
CASE(copy) { V2 p = sv<V2, 2>("p"); V3 q = sv<V3, 3>("q"); auto s = sv<Vector4Minkowski, 4>("s"); sym::obs("p", p[0]); typedef CoordTransfCart2DRotation R2; copies(R2(0.5), R2(1.), p); typedef CoordTransfObliqueToCartesian2D O; copies(O(0.5), O(1.), p); typedef CoordTransfCartesianToOblique2D C; copies(C(0.5), C(1.), p); typedef CoordTransfCart3DRotationXAxis X; copies(X(0.5), X(1.), q); typedef CoordTransfCart3DRotationYAxis Y; copies(Y(0.5), Y(1.), q); typedef CoordTransfCart3DRotationZAxis Z; copies(Z(0.5), Z(1.), q); typedef CoordTransfCart3DRotationEuler E; copies(E(0.5, 1., 2.), E(1., 0.25, -1), q); V3 a{2, 0, 0}, b{0, 3, 0}, c{0, 0, 1}; typedef CoordTransf3DCartOrthogonal OR; copies(OR(a, c, b), OR(a, b, c), q); typedef CoordTransfCartesianToOblique3D O3; copies(O3(a, c, b), O3(a + b, b, c), q); MM<3> m = id<3>(), n = id<3>(); n(0, 1) = 2; typedef CoordTransf3DCartGeneral G; copies(G(m), G(n), q); typedef CoordTransfCart3DRotationQuaternion Q; copies(Q(Quaternion(1, 0, 0, 0)), Q(Quaternion(1, 2, 3, 4)), q); typedef CoordTransfLorentzXAxis L; copies(L(0.25), L(0.5), s); }
// curved coordinates with a quadratic map and a quadratic inverse: vectors and tensors of every variance
template <int N> struct Curved : CoordTransfWithInverse<VectorN<Real, N>, VectorN<Real, N>, N> {
  typedef VectorN<Real, N> V; double a, b; std::vector<ScalarFunctionFromStdFunc<N>> f, g;
  double fw(int i, const V &x) const { double y1 = x[1] + a * x[0] * x[0]; return i == 1 ? y1 : N == 2 ? x[0] + b * y1 : i == 0 ? x[0] : x[2] + b * x[0] * x[1] + x[1]; }
  double bw(int i, const V &y) const { double x0 = N == 2 ? y[0] - b * y[1] : y[0], x1 = y[1] - a * x0 * x0; return i == 0 ? x0 : i == 1 ? x1 : y[2] - b * x0 * x1 - x1; }
  Curved(double A, double B) : a(A), b(B) { for (int i = 0; i < N; i++) f.emplace_back([this, i](const V &x) { return fw(i, x); }), g.emplace_back([this, i](const V &x) { return bw(i, x); }); }
  V transf(const V &x) const override { V y; for (int i = 0; i < N; i++) y[i] = fw(i, x); return y; }
  V transfInverse(const V &y) const override { V x; for (int i = 0; i < N; i++) x[i] = bw(i, y); return x; }
  const IScalarFunction<N> &coordTransfFunc(int i) const override { return f[i]; }
  const IScalarFunction<N> &inverseCoordTransfFunc(int i) const override { return g[i]; }
  MM<N> J(const V &x) const { MM<N> m = id<N>(); double k = 2 * a * x[0]; m(1, 0) = k; if (N == 2) m(0, 0) = 1 + b * k, m(0, 1) = b; else m(2, 0) = b * x[1], m(2, 1) = b * x[0] + 1; return m; }
  MM<N> W(const V &x) const { MM<N> m = id<N>(); double k = 2 * a * x[0]; m(1, 0) = -k; if (N == 2) m(0, 1) = -b, m(1, 1) = 1 + b * k; else m(2, 1) = -(b * x[0] + 1), m(2, 0) = -b * x[1] + (b * x[0] + 1) * k; return m; }
};
template <int N> static void vecs(bool chain) { typedef VectorN<Real, N> V; Curved<N> t(sym::real("a", -2, 2), sym::real("b", -2, 2)); V p; for (int i = 0; i < N; i++) p[i] = sym::real("p", -1, 1); V q = t.transf(p); auto m = t.J(p), w = t.W(p); eqM(mul(m, w), id<N>(), N, N, "inverse"); sym::obs("p", p[0]); if (!chain) { V lim = q; for (int i = 0; i < N; i++) sym::assume(lim[i] <= 1 && lim[i] >= -1); derivs<N, V, V>(t, m, w, p, q, sVecN<N>("u", -4, 4), sVecN<N>("v", -4, 4)); } }
CASE(curved2) { vecs<2>(false); }
CASE(curved3) { vecs<3>(false); }
static const double PT[3] = {0.5, -0.75, 0.25};
template <int N> static double &at(Tensor2<N> &t, const int *d) { return t(d[0], d[1]); }
template <int N> static double &at(Tensor3<N> &t, const int *d) { return t(d[0], d[1], d[2]); }
template <int N> static double &at(Tensor4<N> &t, const int *d) { return t(d[0], d[1], d[2], d[3]); }
template <int N> static double &at(Tensor5<N> &t, const int *d) { return t(d[0], d[1], d[2], d[3], d[4]); }
template <int N> static Tensor2<N> go(Curved<N> &t, const Tensor2<N> &x, const VectorN<Real, N> &p) { return t.transfTensor2(x, p); }
template <int N> static Tensor3<N> go(Curved<N> &t, const Tensor3<N> &x, const VectorN<Real, N> &p) { return t.transfTensor3(x, p); }
template <int N> static Tensor4<N> go(Curved<N> &t, const Tensor4<N> &x, const VectorN<Real, N> &p) { return t.transfTensor4(x, p); }
template <int N> static Tensor5<N> go(Curved<N> &t, const Tensor5<N> &x, const VectorN<Real, N> &p) { return t.transfTensor5(x, p); }
// components: one symbol on a base of fixed values, so that the position of every index matters
template <int N, int R, class T> static void tensor(int mask) {
  Curved<N> t(sym::real("a", -2, 2), 0.5); VectorN<Real, N> p; for (int i = 0; i < N; i++) p[i] = PT[i]; auto m = t.J(p), w = t.W(p); int tot = 1, up = __builtin_popcount(mask), d[R]; for (int i = 0; i < R; i++) tot *= N;
  auto dg = [&](int k) { for (int i = 0; i < R; i++, k /= N) d[i] = k % N; return d; };
  T x(R - up, up); for (int i = 0; i < R; i++) x.setContravar(i, mask >> i & 1); for (int k = 0; k < tot; k++) at(x, dg(k)) = R == 2 ? sym::real("t", -4, 4) : (k * k * 7 + k * 3) % 11 - 5; T y = go(t, x, p); sym::obs("t", t.a);
  sym::check(y.NumContravar() == up && y.NumCovar() == R - up, "number of upper and lower indices"); for (int i = 0; i < R; i++) sym::check(y.IsContravar(i) == !!(mask >> i & 1), "variance of every index");
  for (int o = 0; o < tot; o++) { double s = 0; for (int k = 0; k < tot; k++) { double c = 1; int a = o, b = k; for (int i = 0; i < R; i++, a /= N, b /= N) c = c * (mask >> i & 1 ? m(a % N, b % N) : w(b % N, a % N)); s = s + c * at(x, dg(k)); } sym::eq(at(y, dg(o)), s, "component"); } }
CASEN(tensor2, 0, 3, 3) { tensor<2, 2, Tensor2<2>>(n); }
CASEN(tensor2d3, 0, 3, 3) { tensor<3, 2, Tensor2<3>>(n); }
CASEN(tensor3, 0, 7, 7) { tensor<2, 3, Tensor3<2>>(n); }
CASEN(tensor4, 0, 3, 15) { tensor<2, 4, Tensor4<2>>(n > 3 ? n - 1 : n * 5); }
CASEN(tensor5, 0, 1, 7) { tensor<2, 5, Tensor5<2>>(n * 11 % 32 + (n ? 0 : 6)); }
