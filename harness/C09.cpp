// BOUNDS: all quaternions and vectors with components in [-4,4], all angles in [-3,3] (half angles exact symbols); unit quaternions parametrised rationally (every rotation except the half turn of the chart, which is checked separately)
// OUTSIDE: rounding; values of acos/asin/atan2 beyond their defining identities; text output
#include "h.h"
#include "mml/base/Quaternions.h"
typedef Quaternion Q;
static Q sQ(const char *n, double b = 4) { double w = sym::real(n, 0, -b, b), x = sym::real(n, 1, -b, b), y = sym::real(n, 2, -b, b), z = sym::real(n, 3, -b, b); return Q(w, x, y, z); }
static Vec3Cart sV(const char *n, double b = 4) { return Vec3Cart(sym::real(n, 0, -b, b), sym::real(n, 1, -b, b), sym::real(n, 2, -b, b)); }
static void eqQ(const Q &a, const Q &b, const char *l, double tol = 1e-7) { for (int i = 0; i < 4; i++) sym::eq(a[i], b[i], l, tol); }
static Q ham(const Q &a, const Q &b) { return Q(a[0] * b[0] - (a[1] * b[1] + a[2] * b[2] + a[3] * b[3]), a[0] * b[1] + a[1] * b[0] + (a[2] * b[3] - a[3] * b[2]), a[0] * b[2] + a[2] * b[0] + (a[3] * b[1] - a[1] * b[3]), a[0] * b[3] + a[3] * b[0] + (a[1] * b[2] - a[2] * b[1])); }
static Vec3Cart mul(const MatrixNM<Real, 3, 3> &m, const Vec3Cart &v) { Vec3Cart r; for (int i = 0; i < 3; i++) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; return r; }
// unit quaternion, sign pattern s picks which component dominates
static Q unit(const char *n, int lead, double b = 2) { double a = sym::real(n, 0, -b, b), c = sym::real(n, 1, -b, b), d = sym::real(n, 2, -b, b); double s = a * a + c * c + d * d, k = 1 / (1 + s); double v[4] = {2 * a * k, 2 * c * k, 2 * d * k, (1 - s) * k}; return Q(v[(3 + lead) & 3], v[lead & 3], v[(1 + lead) & 3], v[(2 + lead) & 3]); }
CASE(ring) { Q p = sQ("p"), q = sQ("q"); double s = sym::real("s"); sym::obs("w", (p * q)[0]); eqQ(p * q, ham(p, q), "Hamilton product"); Q r = p; r *= q; eqQ(r, ham(p, q), "*="); r = p; r *= r; eqQ(r, ham(p, p), "*= itself"); r = p; r += q; eqQ(r, p + q, "+="); r -= q; eqQ(r, p, "-="); r = p; r += r; eqQ(r, p * 2, "+= itself"); r = p; r -= r; eqQ(r, p * 0, "-= itself"); r = p; r *= s; eqQ(r, p * s, "*= scalar"); r = p; r *= r[1]; eqQ(r, p * p[1], "*= own component"); eqQ(s * p, p * s, "scalar times"); for (int i = 0; i < 4; i++) { sym::eq((p + q)[i], p[i] + q[i], "sum"); sym::eq((p - q)[i], p[i] - q[i], "difference"); sym::eq((-p)[i], -p[i], "negation"); sym::eq((p * s)[i], p[i] * s, "scaling"); } if (s != 0) eqQ((p / s) * s, p, "division by scalar"); }
CASE(assoc) { Q p = sQ("p"), q = sQ("q"), r = sQ("r"); eqQ((p * q) * r, p * (q * r), "associative"); eqQ(p * (q + r), p * q + p * r, "distributive"); eqQ(Q::Identity() * p, p, "identity"); eqQ(p * Q(), p, "default is identity"); sym::obs("w", p[0]); eqQ(Q(0, 1, 0, 0) * Q(0, 0, 1, 0), Q(0, 0, 0, 1), "ij = k"); eqQ((p * q).Conjugate(), q.Conjugate() * p.Conjugate(), "conjugate reverses products"); }
CASE(norm) { Q p = sQ("p"), q = sQ("q"); sym::obs("w", p[0]); sym::eq((p * q).NormSquared(), p.NormSquared() * q.NormSquared(), "norm multiplicative"); sym::eq(p.Dot(q), (p * q.Conjugate())[0], "dot product"); sym::eq(p.Dot(p), p.NormSquared(), "dot with itself"); sym::eq(p.Norm() * p.Norm(), p.NormSquared(), "norm"); sym::check(p.Norm() >= 0, "norm nonnegative"); bool zero = p.NormSquared() < PrecisionValues<Real>::QuaternionZeroThreshold; Q r; bool t = THROWS(QuaternionError, r = p.Inverse()); sym::check(t == zero, "only the zero quaternion has no inverse"); if (!t) { eqQ(p * r, Q::Identity(), "p p^-1 = 1"); eqQ(r * p, Q::Identity(), "p^-1 p = 1"); } }
CASE(normalize) { Q p = sQ("p"); sym::obs("w", p[0]); double n2 = p.NormSquared(), z = PrecisionValues<Real>::QuaternionZeroThreshold; Q r = p; bool t = THROWS(QuaternionError, r.Normalize()); sym::check(t == (n2 < z * z), "only the zero quaternion cannot be normalised"); if (!t) { sym::eq(r.NormSquared(), 1, "normalised has norm 1"); eqQ(r * p.Norm(), p, "normalisation keeps direction"); eqQ(p.Normalized(), r, "Normalized copy"); sym::check(r.isUnit(), "isUnit"); } else eqQ(r, p, "failed normalisation changes nothing"); sym::check(p.isUnit(0.5) == (n2 < 1.5 && n2 > 0.5), "isUnit by definition"); }
CASE(preds) { Q p = sQ("p"), q = sQ("q"); auto c = [](double a, double b) { return a - b < 0.25 && b - a < 0.25; }; bool ap = true, eq = true, id = c(p[0], 1) && c(p[1], 0) && c(p[2], 0) && c(p[3], 0); for (int i = 0; i < 4; i++) { ap = ap && c(p[i], q[i]); eq = eq && p[i] == q[i]; } sym::check(p.isApprox(q, 0.25) == ap, "isApprox"); sym::check((p == q) == eq && (p != q) == !eq, "equality"); sym::check(p.isIdentity(0.25) == id, "isIdentity"); sym::obs("w", p[0]); sym::check(p.w() == p[0] && p.x() == p[1] && p.y() == p[2] && p.z() == p[3] && p.Scalar() == p[0] && p.Vector()[2] == p[3], "accessors"); }
CASE(rotate) { Q q = unit("u", sym::pick(0, 3, "lead")); Vec3Cart v = sV("v"), w = sV("w"); Vec3Cart r = q.Rotate(v); Q s = q * Q(v) * q.Conjugate(); sym::obs("r", r[0]); sym::eq(s[0], 0, "q v q* is pure"); for (int i = 0; i < 3; i++) sym::eq(r[i], s[i + 1], "rotation is q v q*"); Vec3Cart m = mul(q.ToRotationMatrix(), v); eqV(m, r, 3, "rotation matrix rotates the same"); sym::eq(ScalarProduct(r, r), ScalarProduct(v, v), "length preserved"); sym::eq(ScalarProduct(r, q.Rotate(w)), ScalarProduct(v, w), "angles preserved"); eqV(q.Conjugate().Rotate(r), v, 3, "inverse rotation"); eqV((-q).Rotate(v), r, 3, "q and -q rotate alike"); }
CASE(compose) { Q q = unit("u", 0), p = unit("p", 1); Vec3Cart v = sV("v"); eqV((p * q).Rotate(v), p.Rotate(q.Rotate(v)), 3, "product composes rotations"); sym::obs("v", v[0]); auto A = (p * q).ToRotationMatrix(), B = p.ToRotationMatrix() * q.ToRotationMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(A[i][j], B[i][j], "matrix of a product"); }
CASE(matrix) { Q q = unit("u", sym::pick(0, 3, "lead")); auto m = q.ToRotationMatrix(); sym::obs("m", m[0][0]); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = 0; for (int k = 0; k < 3; k++) d += m[i][k] * m[j][k]; sym::eq(d, i == j, "rotation matrix orthogonal"); } sym::eq(det3(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]), 1, "determinant 1"); }
CASEN(frommatrix, 0, 3, 3) { Q q = unit("u", n, 1); auto m = q.ToRotationMatrix(); Q r = Q::FromRotationMatrix(m); double d = q[0] * r[0] + q[1] * r[1] + q[2] * r[2] + q[3] * r[3]; sym::obs("m", m[0][0]); sym::eq(d * d, 1, "quaternion recovered up to sign"); sym::eq(r.NormSquared(), 1, "recovered quaternion is unit"); }
CASE(axis) { double a = sym::real("a", -3, 3); Vec3Cart u = sV("u", 1), v = sV("v"); sym::assume(u[0] * u[0] + u[1] * u[1] + u[2] * u[2] == 1); Q q = Q::FromAxisAngle(u, a); sym::eq(q.NormSquared(), 1, "axis-angle is unit"); Vec3Cart r = q.Rotate(v); double c = std::cos(a), s = std::sin(a), d = ScalarProduct(u, v); Vec3Cart x = VectorProduct(u, v); for (int i = 0; i < 3; i++) sym::eq(r[i], v[i] * c + x[i] * s + u[i] * d * (1 - c), "Rodrigues formula"); sym::obs("v", v[0]); eqV(q.Rotate(u), u, 3, "axis fixed"); }
CASE(axisback) { double a = sym::real("a", 0.05, 3); static const double U[5][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0.6, 0, -0.8}, {2. / 7, 3. / 7, 6. / 7}}; int k = sym::pick(0, 3, "k"); Vec3Cart u(U[k][0], U[k][1], U[k][2]); Q q = Q::FromAxisAngle(u, a); Vec3Cart ax; double an; q.ToAxisAngle(ax, an); sym::eq(an, a, "angle recovered"); eqV(ax, u, 3, "axis recovered"); sym::obs("a", a); }
CASE(axisprops) { Q q = unit("u", 0); Vec3Cart a = q.GetRotationAxis(); double s = q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; sym::eq(a[0] * a[0] + a[1] * a[1] + a[2] * a[2], 1, "axis is a unit vector"); sym::obs("s", s); double an = q.GetRotationAngle(); sym::check(an >= 0 && an <= 6.2831853071795865, "angle range"); sym::eq(std::cos(an / 2), q[0], "angle matches the scalar part"); }
CASE(euler) { double y = sym::real("y", -3, 3), p = sym::real("p", -3, 3), r = sym::real("r", -3, 3); symrt_angle(y, 2); symrt_angle(p, 2); symrt_angle(r, 2); Q qx = Q::FromAxisAngle(Vec3Cart(1, 0, 0), r), qy = Q::FromAxisAngle(Vec3Cart(0, 1, 0), p), qz = Q::FromAxisAngle(Vec3Cart(0, 0, 1), y); Q z = Q::FromEulerZYX(y, p, r), x = Q::FromEulerXYZ(r, p, y); sym::obs("y", y); eqQ(z, qz * qy * qx, "ZYX is Rz Ry Rx"); eqQ(x, qx * qy * qz, "XYZ is Rx Ry Rz"); sym::eq(z.NormSquared(), 1, "Euler quaternion is unit"); }
CASEN(eulerback, 0, 2, 4) { double a = sym::real("a", -0.9, 0.9), k = 1 / (1 + a * a), c = (1 - a * a) * k, s = 2 * a * k; Q h = n == 0 ? Q(c, s, 0, 0) : (n == 1 || n == 3) ? Q(c, 0, s, 0) : Q(c, 0, 0, s); double b = sym::real("b", 0.5, 0.5), kb = 1 / (1 + b * b), cb = (1 - b * b) * kb, sb = 2 * b * kb; Q q = n < 3 ? h * Q(cb, 0, n == 1 ? 0 : sb, n == 1 ? sb : 0) : Q(cb * 0.5, -sb * 0.5, cb * 0.5, sb * 0.5) * h * Q(1, 1, 0, 0); if (n >= 3) sym::assume(a > -0.5 && a < 0.5); double sp = 2 * (q[0] * q[2] - q[3] * q[1]); Vec3Cart e = q.ToEulerZYX(); sym::obs("sp", sp); sym::assume(sp < 0.99 && sp > -0.99); auto m = q.ToRotationMatrix(); sym::eq(std::sin(e[1]), sp, "pitch"); double cp = std::cos(e[1]); sym::check(cp >= 0, "pitch range"); sym::eq(cp * std::sin(e[0]), m[1][0], "yaw sine"); sym::eq(cp * std::cos(e[0]), m[0][0], "yaw cosine"); sym::eq(cp * std::sin(e[2]), m[2][1], "roll sine"); sym::eq(cp * std::cos(e[2]), m[2][2], "roll cosine"); }
CASE(lerp) { Q p = sQ("p"), q = sQ("q"); double t = sym::real("t", -1, 2); eqQ(Q::Lerp(p, q, t), p * (1 - t) + q * t, "Lerp"); eqQ(Q::Lerp(p, q, 0), p, "Lerp starts at the first"); eqQ(Q::Lerp(p, q, 1), q, "Lerp ends at the second"); sym::obs("t", t); }
CASEN(slerp, 0, 3, 3) { double h = sym::real("h", 0, 3.14159); symrt_angle(h, 1); double t = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 0.5 : 0.25; if (n >= 2) symrt_angle(h, n == 2 ? 2 : 4); Q p(1, 0, 0, 0), q(std::cos(h), std::sin(h), 0, 0); bool flip = q[0] < 0; double ang = flip ? h - 3.14159265358979323846 : h; Q s = Q::Slerp(p, q, t); sym::obs("h", h); double d = flip ? -q[0] : q[0]; sym::eq(s.NormSquared(), 1, "Slerp stays unit", 1e-6); if (n == 0) eqQ(s, p, "Slerp starts at the first"); else if (n == 1) eqQ(s, flip ? q * -1 : q * 1, "Slerp ends at the second up to sign"); else if (n == 2 && d <= 0.9995) { Q m = p + (flip ? q * -1 : q * 1); double k = s.Dot(m); sym::eq(k * k, m.NormSquared(), "Slerp midpoint bisects"); sym::check(k > 0, "Slerp takes the short way"); } else if (d <= 0.9995) { eqQ(s * s * s * s, flip ? q * -1 : q * 1, "quarter Slerp", 1e-6); } (void)ang; }
