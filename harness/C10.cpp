// BOUNDS: tensors of rank 2..5 in dimension 2 and 3 (rank 5: dimension 2) with arbitrary real components and arguments, every variance count in [-2,6]^2, every index pair of a contraction in [-1,rank], every element index in [-2,N+1]
// OUTSIDE: rounding, text output
#include "h.h"
#include "mml/base/Tensor.h"
template <int N> static Tensor2<N> s2(const char *n, int c, int d) { Tensor2<N> t(c, d); int q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t(i, j) = sym::real(n, q++, -8, 8); return t; }
template <int N> static Tensor3<N> s3(const char *n, int c, int d) { Tensor3<N> t(c, d); int q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) t(i, j, k) = sym::real(n, q++, -8, 8); return t; }
template <int N> static Tensor4<N> s4(const char *n, int c, int d) { Tensor4<N> t(c, d); int q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) t(i, j, k, l) = sym::real(n, q++, -8, 8); return t; }
template <int N> static Tensor5<N> s5(const char *n, int c, int d) { Tensor5<N> t(c, d); int q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) for (int m = 0; m < N; m++) t(i, j, k, l, m) = sym::real(n, q++, -8, 8); return t; }
template <class T> static void ctor(int rank) { int a = sym::pick(-2, 6, "covar"), b = sym::pick(-2, 6, "contra"); bool ok = a >= 0 && b >= 0 && a + b == rank; int r = sym_throws<TensorCovarContravarNumError>([&] { T t(a, b); sym::check(t.NumCovar() == a && t.NumContravar() == b, "counts"); for (int i = 0; i < rank; i++) sym::check(t.IsContravar(i) == (i >= a) && t.IsCovar(i) == (i < a), "covariant indices come first"); }); sym::check(r == (ok ? 0 : 1), "wrong variance counts refused"); }
CASEN(ctor, 2, 5, 5) { if (n == 2) ctor<Tensor2<2>>(2); else if (n == 3) ctor<Tensor3<2>>(3); else if (n == 4) ctor<Tensor4<2>>(4); else ctor<Tensor5<2>>(5); sym::obs("x", sym::real("x")); }
CASE(arith) { int v = sym::pick(0, 2, "v"), w = sym::pick(0, 2, "w"); bool sw = v == 1 && sym::flag("swap"); Tensor2<3> a = s2<3>("a", v, 2 - v), b = s2<3>("b", w, 2 - w); if (sw) { a.setContravar(0, true); a.setContravar(1, false); b.setContravar(0, true); b.setContravar(1, false); } double s = sym::real("s"); int t = sym_throws<TensorCovarContravarArithmeticError>([&] { Tensor2<3> c = a + b, d = a - b; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sym::eq(c(i, j), a(i, j) + b(i, j), "sum"); sym::eq(d(i, j), a(i, j) - b(i, j), "difference"); } for (int i = 0; i < 2; i++) sym::check(c.IsContravar(i) == a.IsContravar(i) && d.IsContravar(i) == a.IsContravar(i), "sum keeps variance"); sym::check(c.NumCovar() == v && d.NumCovar() == v, "sum keeps counts"); }); sym::check(t == (v != w), "different variance refused"); Tensor2<3> m = a * s, k = s * a; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sym::eq(m(i, j), a(i, j) * s, "scaling"); sym::eq(k(i, j), a(i, j) * s, "scaling from the left"); } if (s != 0) { Tensor2<3> q = a / s; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(q(i, j) * s, a(i, j), "division"); sym::check(q.NumContravar() == 2 - v && q.IsContravar(0) == a.IsContravar(0), "division keeps variance"); } for (int i = 0; i < 2; i++) sym::check(m.IsContravar(i) == a.IsContravar(i) && k.IsContravar(i) == a.IsContravar(i), "scaling keeps variance"); sym::obs("a", a(0, 0)); }
CASE(form2) { Tensor2<3> a = s2<3>("a", 1, 1); VectorN<Real, 3> u = sVecN<3>("u"), v = sVecN<3>("v"), w = sVecN<3>("w"); double s = sym::real("s"), e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e += a(i, j) * u[i] * v[j]; sym::obs("e", e); sym::eq(a(u, v), e, "bilinear form"); sym::eq(a(u * s + w, v), s * a(u, v) + a(w, v), "linear in the first slot"); sym::eq(a(u, v * s + w), s * a(u, v) + a(u, w), "linear in the second slot"); sym::eq(a.Contract(), a(0, 0) + a(1, 1) + a(2, 2), "trace"); for (int c = 0; c < 3; c++) { Tensor2<3> x = s2<3>("a", c, 2 - c); sym::check(THROWS(TensorCovarContravarNumError, x.Contract()) == (c != 1), "contraction needs one index of each kind"); } auto m = a.GetMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(m(i, j), a(i, j), "matrix form"); }
CASE(form3) { Tensor3<3> a = s3<3>("a", 1, 2); VectorN<Real, 3> u = sVecN<3>("u"), v = sVecN<3>("v"), w = sVecN<3>("w"); double e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) e += a(i, j, k) * u[i] * v[j] * w[k]; sym::eq(a(u, v, w), e, "trilinear form"); sym::obs("e", e); }
CASE(form45) { Tensor4<2> a = s4<2>("a", 1, 3); Tensor5<2> b = s5<2>("b", 1, 4); VectorN<Real, 2> u = sVecN<2>("u"), v = sVecN<2>("v"), w = sVecN<2>("w"), x = sVecN<2>("x"), y = sVecN<2>("y"); double e = 0, f = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) { e += a(i, j, k, l) * u[i] * v[j] * w[k] * x[l]; for (int m = 0; m < 2; m++) f += b(i, j, k, l, m) * u[i] * v[j] * w[k] * x[l] * y[m]; } sym::eq(a(u, v, w, x), e, "4-linear form"); sym::eq(b(u, v, w, x, y), f, "5-linear form"); sym::obs("e", e); }
static double g3(const Tensor3<3> &t, const int *p) { return t(p[0], p[1], p[2]); }
CASE(contract3) { int i = sym::pick(-1, 3, "i"), j = sym::pick(-1, 3, "j"); Tensor3<3> t = s3<3>("t", 1, 2); VectorN<Real, 3> r; bool ok = i >= 0 && i < 3 && j >= 0 && j < 3 && i != j; int th = sym_throws<TensorIndexError>([&] { r = t.Contract(i, j); }); sym::check(th == (ok ? 0 : 1), "invalid contraction refused"); sym::obs("t", t(0, 0, 0)); if (!ok) return; for (int a = 0; a < 3; a++) { double s = 0; for (int k = 0; k < 3; k++) { int p[3] = {a, a, a}; p[i] = p[j] = k; s += g3(t, p); } sym::eq(r[a], s, "contraction sums the shared index"); } }
CASE(contract4) { int i = sym::pick(-1, 4, "i"), j = sym::pick(-1, 4, "j"), c = sym::pick(0, 4, "c"); Tensor4<2> t = s4<2>("t", c, 4 - c); bool ok = i >= 0 && i < 4 && j >= 0 && j < 4 && i != j; Tensor2<2> r(1, 1); int th = sym_throws<TensorIndexError>([&] { r = t.Contract(i, j); }); sym::check(th == (ok ? 0 : 1), "invalid contraction refused"); sym::obs("t", t(0, 0, 0, 0)); if (!ok) return; int rest[2], m = 0; for (int k = 0; k < 4; k++) if (k != i && k != j) rest[m++] = k; int cv = 0; for (int k = 0; k < 2; k++) { sym::check(r.IsContravar(k) == t.IsContravar(rest[k]), "variance of the remaining indices"); cv += rest[k] < c; } sym::check(r.NumCovar() == cv && r.NumContravar() == 2 - cv, "variance counts"); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { double s = 0; for (int k = 0; k < 2; k++) { int p[4]; p[i] = p[j] = k; p[rest[0]] = a; p[rest[1]] = b; s += t(p[0], p[1], p[2], p[3]); } sym::eq(r(a, b), s, "contraction sums the shared index"); } }
CASE(contract5) { int i = sym::pick(-1, 5, "i"), j = sym::pick(-1, 5, "j"), c = sym::pick(2, 3, "c"); Tensor5<2> t = s5<2>("t", c, 5 - c); bool ok = i >= 0 && i < 5 && j >= 0 && j < 5 && i != j; Tensor3<2> r(1, 2); int th = sym_throws<TensorIndexError>([&] { r = t.Contract(i, j); }); sym::check(th == (ok ? 0 : 1), "invalid contraction refused"); sym::obs("t", t(0, 0, 0, 0, 0)); if (!ok) return; int rest[3], m = 0; for (int k = 0; k < 5; k++) if (k != i && k != j) rest[m++] = k; for (int k = 0; k < 3; k++) sym::check(r.IsContravar(k) == t.IsContravar(rest[k]), "variance of the remaining indices"); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int d = 0; d < 2; d++) { double s = 0; for (int k = 0; k < 2; k++) { int p[5]; p[i] = p[j] = k; p[rest[0]] = a; p[rest[1]] = b; p[rest[2]] = d; s += t(p[0], p[1], p[2], p[3], p[4]); } sym::eq(r(a, b, d), s, "contraction sums the shared index"); } }
CASEN(at, 2, 5, 5) { int ix[5] = {0, 0, 0, 0, 0}, wild = sym::pick(0, n - 1, "wild"); for (int q = 0; q < n; q++) ix[q] = q == wild || n == 2 ? sym::pick(-2, 3, "ix") : sym::pick(0, 1, "ix"); int i = ix[0], j = ix[1], k = ix[2], l = ix[3], m = ix[4]; auto in = [](int x) { return x >= 0 && x < 2; }; bool ok = in(i) && in(j) && in(k) && in(l) && in(m); double v = 0, w = 0; int th = 0, tw = 0; double x = sym::real("x"); sym::obs("x", x); if (n == 2) { Tensor2<2> t = s2<2>("t", 1, 1); th = sym_throws<TensorIndexError>([&] { t.at(i, j) = x; }); const auto &q = t; tw = sym_throws<TensorIndexError>([&] { v = q.at(i, j); }); if (ok) w = q(i, j); } if (n == 3) { Tensor3<2> t = s3<2>("t", 1, 2); th = sym_throws<TensorIndexError>([&] { t.at(i, j, k) = x; }); const auto &q = t; tw = sym_throws<TensorIndexError>([&] { v = q.at(i, j, k); }); if (ok) w = q(i, j, k); } if (n == 4) { Tensor4<2> t(2, 2); th = sym_throws<TensorIndexError>([&] { t.at(i, j, k, l) = x; }); const auto &q = t; tw = sym_throws<TensorIndexError>([&] { v = q.at(i, j, k, l); }); if (ok) w = q(i, j, k, l); } if (n == 5) { Tensor5<2> t(2, 3); th = sym_throws<TensorIndexError>([&] { t.at(i, j, k, l, m) = x; }); const auto &q = t; tw = sym_throws<TensorIndexError>([&] { v = q.at(i, j, k, l, m); }); if (ok) w = q(i, j, k, l, m); } sym::check(th == (ok ? 0 : 1) && tw == th, "checked access refuses every index outside"); if (ok) { sym::eq(v, x, "checked access reads what was written"); sym::eq(w, x, "both accesses agree"); } }
CASE(init) { int c = sym::pick(0, 5, "cnt"); std::vector<double> v = sym::reals("v", 6); auto chk = [&](const Tensor2<2> &t) { for (int i = 0; i < 4; i++) sym::eq(t(i / 2, i % 2), i < c ? v[i] : 0, "initialiser list fills row by row"); }; int th = sym_throws<TensorCovarContravarNumError>([&] { if (c == 0) chk(Tensor2<2>(1, 1, {})); if (c == 1) chk(Tensor2<2>(1, 1, {v[0]})); if (c == 3) chk(Tensor2<2>(1, 1, {v[0], v[1], v[2]})); if (c == 4) chk(Tensor2<2>(1, 1, {v[0], v[1], v[2], v[3]})); if (c == 5) chk(Tensor2<2>(1, 1, {v[0], v[1], v[2], v[3], v[4]})); }); sym::check(th == (c == 5), "too many initialisers refused"); Tensor3<2> t(1, 2, {v[0], v[1], v[2], v[3], v[4]}); for (int q = 0; q < 8; q++) sym::eq(t(q / 4, q / 2 % 2, q % 2), q < 5 ? v[q] : 0, "rank 3 initialiser list"); sym::obs("v", v[0]); }
