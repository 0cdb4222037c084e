// BOUNDS: vector dimensions 0..4 (thorough 0..6), components and scalars any real in [-8,8], index -2..n+2, two independently chosen sizes 0..4
// OUTSIDE: rounding of the component arithmetic, element types other than double, formatted printing
#include "h.h"
#include "mml/base/Vector/VectorTypes.h"
CASEN(arith, 1, 4, 6) {
  Vector<Real> a = sVec("a", n), b = sVec("b", n), c = sVec("c", n); double s = sym::real("s"), t = sym::real("t");
  Vector<Real> sum = a + b, dif = a - b, neg = -a, sc = a * s, sc2 = s * a;
  for (int i = 0; i < n; i++) {
    sym::eq(sum[i], a[i] + b[i], "sum is component-wise"); sym::eq(dif[i], a[i] - b[i], "difference is component-wise");
    sym::eq(neg[i], -a[i], "negation"); sym::eq(sc[i], a[i] * s, "scaling"); sym::eq(sc2[i], a[i] * s, "left scaling"); sym::obs("sum", sum[i]); }
  Vector<Real> x = a; x += b; eqV(x, sum, n, "+= agrees with +"); x = a; x -= b; eqV(x, dif, n, "-= agrees with -"); x = a; x *= s; eqV(x, sc, n, "*= agrees with *");
  Vector<Real> dl = (a + b) * s, dr = a * s + b * s; eqV(dl, dr, n, "distributive"); eqV((a + b) + c, a + (b + c), n, "associative"); eqV(a * (s * t), (a * s) * t, n, "scalar associativity");
  double dot = 0; for (int i = 0; i < n; i++) dot += a[i] * b[i];
  sym::eq(Utils::ScalarProduct(a, b), dot, "scalar product"); sym::eq(Utils::ScalarProduct(a * s + c, b), s * Utils::ScalarProduct(a, b) + Utils::ScalarProduct(c, b), "bilinear");
  Matrix<Real> o = Utils::OuterProduct(a, b); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym::eq(o(i, j), a[i] * b[j], "outer product");
}
CASEN(divide, 1, 3, 5) {
  Vector<Real> a = sVec("a", n); double s = sym::real("s"); sym::assume(s > 0.01 || s < -0.01);
  Vector<Real> q = a / s; eqV(q * s, a, n, "(a/s)*s == a"); Vector<Real> x = a; x /= s; eqV(x, q, n, "/= agrees with /");
  Vector<Real> y = a.safeDivide(s); eqV(y, q, n, "safeDivide");
}
CASEN(selfscale, 1, 3, 4) { // scalar that is one of the vector's own components
  Vector<Real> a = sVec("a", n); for (int k = 0; k < n; k++) { Vector<Real> x = a; x *= x[k]; for (int i = 0; i < n; i++) sym::eq(x[i], a[i] * a[k], "v *= v[k]"); }
  for (int k = 0; k < n; k++) { sym::assume(a[k] > 0.5); Vector<Real> x = a; x /= x[k]; for (int i = 0; i < n; i++) sym::eq(x[i] * a[k], a[i], "v /= v[k]"); }
}
CASE(selfscaleN) {
  VectorN<Real, 3> a = sVecN<3>("a"); sym::assume(a[0] > 0.5 && a[1] > 0.5 && a[2] > 0.5);
  for (int k = 0; k < 3; k++) { VectorN<Real, 3> x = a; x *= x[k]; for (int i = 0; i < 3; i++) sym::eq(x[i], a[i] * a[k], "VectorN v *= v[k]"); VectorN<Real, 3> y = a; y /= y[k]; for (int i = 0; i < 3; i++) sym::eq(y[i] * a[k], a[i], "VectorN v /= v[k]"); }
}
CASEN(norms, 1, 3, 4) {
  Vector<Real> a = sVec("a", n), b = sVec("b", n); double s = sym::real("s");
  double l1 = 0, ss = 0; for (int i = 0; i < n; i++) { l1 += std::fabs(a[i]); ss += a[i] * a[i]; }
  sym::eq(a.NormL1(), l1, "L1 norm"); double e = a.NormL2(); sym::eq(e * e, ss, "L2 norm squared"); sym::check(e >= 0, "L2 norm nonnegative");
  double m = a.NormLInf(); bool hit = false; for (int i = 0; i < n; i++) { sym::check(std::fabs(a[i]) <= m, "LInf bounds components"); if (std::fabs(a[i]) == m) hit = true; } sym::check(hit, "LInf attained");
  sym::eq((a * s).NormL1(), std::fabs(s) * l1, "L1 homogeneous"); sym::check((a + b).NormL1() <= a.NormL1() + b.NormL1() + 1e-9, "L1 triangle inequality");
  if (n <= 2) { double es = (a * s).NormL2(); sym::eq(es * es, s * s * ss, "L2 homogeneous"); }
}
CASEN(normsN, 1, 1, 1) {
  VectorN<Real, 3> a = sVecN<3>("a"); Vector<Real> v(3); for (int i = 0; i < 3; i++) v[i] = a[i];
  sym::eq(a.NormL1(), v.NormL1(), "VectorN L1 = Vector L1"); sym::eq(a.NormLInf(), v.NormLInf(), "VectorN LInf = Vector LInf"); sym::eq(a.NormL2(), v.NormL2(), "VectorN L2 = Vector L2");
  sym::assume(std::fabs(a[0]) > 0.01 || std::fabs(a[1]) > 0.01); VectorN<Real, 3> u = a.Normalized(); sym::eq(u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1, "normalized has length 1"); double k = a.NormL2(); for (int i = 0; i < 3; i++) sym::eq(u[i] * k, a[i], "normalized parallel");
}
CASE(fixed) {
  VectorN<Real, 3> a = sVecN<3>("a"), b = sVecN<3>("b"); double s = sym::real("s"), d = sym::real("d", 0.25, 8);
  for (int i = 0; i < 3; i++) { sym::eq((a + b)[i], a[i] + b[i], "VectorN +"); sym::eq((a - b)[i], a[i] - b[i], "VectorN -"); sym::eq((-a)[i], -a[i], "VectorN neg"); sym::eq((a * s)[i], a[i] * s, "VectorN *"); sym::eq((s * a)[i], a[i] * s, "VectorN s*"); sym::eq((a / d)[i] * d, a[i], "VectorN /"); }
  VectorN<Real, 3> x = a; x += b; eqV(x, a + b, 3, "VectorN +="); x -= b; eqV(x, a, 3, "VectorN -="); x *= s; eqV(x, a * s, 3, "VectorN *="); x = a; x /= d; eqV(x, a / d, 3, "VectorN /=");
  sym::eq(Utils::ScalarProduct<3>(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "VectorN scalar product");
}
CASE(sizes) { // operations on different sizes throw, never read out of range
  int n = sym::pick(0, 4, "n"), m = sym::pick(0, 4, "m"); Vector<Real> a = sVec("a", n), b = sVec("b", m); bool same = n == m;
  auto want = [&](int r, const char *l) { sym::check(r == (same ? 0 : 1), l); };
  want(sym_throws<VectorDimensionError>([&] { auto c = a + b; sym::check(c.size() == n, "result size"); }), "a+b: dimension error iff sizes differ");
  want(sym_throws<VectorDimensionError>([&] { auto c = a - b; sym::check(c.size() == n, "result size"); }), "a-b: dimension error iff sizes differ");
  want(sym_throws<VectorDimensionError>([&] { Vector<Real> c = a; c += b; }), "a+=b: dimension error iff sizes differ");
  want(sym_throws<VectorDimensionError>([&] { Vector<Real> c = a; c -= b; }), "a-=b: dimension error iff sizes differ");
  want(sym_throws<VectorDimensionError>([&] { (void)(a == b); }), "a==b: dimension error iff sizes differ");
  want(sym_throws<VectorDimensionError>([&] { (void)a.IsEqualTo(b, 1e-3); }), "IsEqualTo: dimension error iff sizes differ");
  want(sym_throws<VectorDimensionError>([&] { (void)Utils::ScalarProduct(a, b); }), "ScalarProduct: dimension error iff sizes differ");
  if (!same) { Vector<Real> c = a; try { c += b; } catch (VectorDimensionError &) {} sym::check(c.size() == n, "failed += leaves size"); if (c.size() == n) eqV(c, a, n, "failed += leaves operand unchanged"); }
}
CASE(access) {
  int n = sym::pick(0, 4, "n"); int i = sym::integer("i", -2000000000, 2000000000); Vector<Real> a = sVec("a", n); bool ok = i >= 0 && i < n;
  int r = sym_throws<VectorDimensionError>([&] { double v = a.at(i); sym::eq(v, a[i], "at returns the component"); });
  sym::check(r == (ok ? 0 : 1), "at: throws exactly when index is out of range");
  const Vector<Real> &ca = a; sym::check(sym_throws<VectorDimensionError>([&] { (void)ca.at(i); }) == (ok ? 0 : 1), "const at: throws exactly when index is out of range");
  VectorN<Real, 3> w; bool ok3 = i >= 0 && i < 3; sym::check(sym_throws<VectorDimensionError>([&] { w.at(i) = 1; }) == (ok3 ? 0 : 1), "VectorN::at bounds");
  int r2 = sym_throws<VectorDimensionError>([&] { Vector<Real> u = Vector<Real>::UnitVector(n, i); for (int k = 0; k < n; k++) sym::eq(u[k], k == i ? 1.0 : 0.0, "unit vector"); });
  sym::check(r2 == (ok ? 0 : 1), "UnitVector: throws exactly when index is out of range");
}
CASE(ctorsize) { int n = sym::integer("n", -2147483647 - 1, 5); int r = sym_throws<VectorInitializationError>([&] { Vector<Real> v(n); sym::check(v.size() == n, "constructed size"); for (int i = 0; i < v.size(); i++) sym::eq(v[i], 0, "zero initialised"); }); sym::check(r == (n < 0 ? 1 : 0), "negative size rejected"); 
  double x = sym::real("x"); int r2 = sym_throws<VectorInitializationError>([&] { Vector<Real> v(n, x); for (int i = 0; i < v.size(); i++) sym::eq(v[i], x, "fill"); }); sym::check(r2 == (n < 0 ? 1 : 0), "negative size rejected (fill)"); }
CASEN(edit, 1, 3, 4) {
  Vector<Real> a = sVec("a", n); double x = sym::real("x"); int p = sym::pick(0, n, "p"); Vector<Real> b = a; b.insert(p, x); sym::check(b.size() == n + 1, "insert grows by one");
  for (int i = 0; i <= n; i++) sym::eq(b[i], i < p ? a[i] : i == p ? x : a[i - 1], "insert keeps order"); b.erase(p); eqV(b, a, n, "erase undoes insert"); b.push_back(x); sym::eq(b[n], x, "push_back"); eqV(b, a, n, "push_back keeps prefix");
  Vector<Real> c = a; int q = sym::pick(0, 5, "q"); c.Resize(q); sym::check(c.size() == q, "resize"); for (int i = 0; i < q && i < n; i++) sym::eq(c[i], a[i], "resize keeps prefix");
}
CASEN(compare, 1, 3, 4) {
  Vector<Real> a = sVec("a", n), b = sVec("b", n); double eps = sym::real("eps", 0, 2); bool alleq = true, within = true; for (int i = 0; i < n; i++) { if (a[i] != b[i]) alleq = false; if (std::fabs(a[i] - b[i]) > eps) within = false; }
  sym::check((a == b) == alleq, "== iff all components equal"); sym::check((a != b) == !alleq, "!= is the negation"); sym::check(a.IsEqualTo(b, eps) == within, "IsEqualTo iff all within eps"); sym::check(b.IsEqualTo(a, eps) == within, "IsEqualTo symmetric");
  bool z = true, nz = true; for (int i = 0; i < n; i++) { if (a[i] != 0) z = false; if (std::fabs(a[i]) > eps) nz = false; } sym::check(a.isZero() == z, "isZero"); sym::check(a.isNearZero(eps) == nz, "isNearZero");
}
CASEN(project, 2, 3, 3) {
  Vector<Real> a = sVec("a", n, -4, 4), b = sVec("b", n, -4, 4); sym::assume(b[0] > 0.25); Vector<Real> p = Utils::VectorProjectionParallelTo(a, b), q = Utils::VectorProjectionPerpendicularTo(a, b);
  eqV(p + q, a, n, "projections add up"); sym::eq(Utils::ScalarProduct(q, b), 0, "perpendicular part is orthogonal"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym::eq(p[i] * b[j], p[j] * b[i], "parallel part is parallel");
}
