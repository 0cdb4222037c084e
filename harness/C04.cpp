// BOUNDS: MatrixSym dimension 1..3 (thorough 4), tridiagonal 3..4 (thorough 5), band dimension 1..4 with bandwidths 0..2, entries/scalars any real in [-8,8]; MatrixSym::at indices any 32-bit int; tridiagonal solve up to 4x4 diagonally dominant and up to 3x3 with an arbitrary small matrix
// OUTSIDE: rounding
#include "h.h"
#include "mml/base/Matrix/MatrixSym.h"
#include "mml/base/Matrix/MatrixTriDiag.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
static MatrixSym<Real> sSym(const char *nm, int n) { MatrixSym<Real> m(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = sym::real(nm, i * 8 + j, -8, 8); return m; }
static Matrix<Real> D(const MatrixSym<Real> &s) { int n = s.Dim(); Matrix<Real> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = s(i, j); return m; }
CASEN(symops, 1, 3, 4) {
  auto A = sSym("a", n), B = sSym("b", n); Matrix<Real> a = D(A), b = D(B), M = sMat("m", n, 2); Vector<Real> v = sVec("v", n); double s = sym::real("s"), d = sym::real("d", 0.5, 4);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym::eq(A(i, j), A(j, i), "symmetric access");
  eqM(A.GetAsMatrix(), a, n, n, "GetAsMatrix"); eqM(D(A + B), a + b, n, n, "+"); eqM(D(A - B), a - b, n, n, "-"); eqM(D(-A), -a, n, n, "neg"); eqM(D(A * s), a * s, n, n, "*s"); eqM(D(s * A), a * s, n, n, "s*"); eqM(D(A / d) * d, a, n, n, "/d");
  eqM(A * B, a * b, n, n, "sym*sym = dense product"); eqM(A * M, a * M, n, 2, "sym*dense = dense product"); eqV(A * v, a * v, n, "sym*v"); eqV(v * A, v * a, n, "v*sym"); sym::eq(A.Trace(), a.trace(), "trace"); auto dg = A.VectorFromDiagonal(); auto r = A.VectorFromRow(n - 1), c = A.VectorFromColumn(0); for (int i = 0; i < n; i++) { sym::eq(dg[i], a(i, i), "diagonal"); sym::eq(r[i], a(n - 1, i), "row"); sym::eq(c[i], a(i, 0), "column"); }
  double f = A.NormFrobenius(); double ss = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ss += a(i, j) * a(i, j); sym::eq(f * f, ss, "Frobenius norm of the full matrix");
  auto X = A; X += B; eqM(D(X), a + b, n, n, "+="); X -= B; eqM(D(X), a, n, n, "-="); X *= s; eqM(D(X), a * s, n, n, "*="); X = A; X /= d; eqM(D(X) * d, a, n, n, "/="); X = A; X += X; eqM(D(X), a * 2.0, n, n, "self +=");
  eqM(D(MatrixSym<Real>::FromLower(a)), a, n, n, "FromLower"); eqM(D(MatrixSym<Real>::FromUpper(a)), a, n, n, "FromUpper"); eqM(D(MatrixSym<Real>::Identity(n)), Matrix<Real>::Identity(n), n, n, "identity"); eqM(D(MatrixSym<Real>::GetDiagonalMatrix(v)), Matrix<Real>::Diagonal(v), n, n, "diagonal matrix"); sym::obs("t", A.Trace());
}
CASE(symaliasing) { auto A = sSym("a", 2); for (int k = 0; k < 3; k++) { int i = k ? 1 : 0, j = k == 2; auto X = A; X *= X(i, j); eqM(D(X), D(A) * A(i, j), 2, 2, "sym m *= m(i,j)"); sym::assume(A(i, j) > 0.1); auto Y = A; Y /= Y(i, j); eqM(D(Y), D(A) / A(i, j), 2, 2, "sym m /= m(i,j)"); } }
CASEN(symnorm, 1, 2, 2) { auto A = sSym("a", n); double m = 0; for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r += std::fabs(A(i, j)); if (r > m) m = r; } sym::eq(A.NormInf(), m, "NormInf = max row sum"); sym::eq(A.Norm1(), m, "Norm1 = max column sum"); }
CASEN(symeq, 1, 2, 3) { auto A = sSym("a", n), B = sSym("b", n); double e = sym::real("e", 0, 3); bool w = true; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (std::fabs(A(i, j) - B(i, j)) > e) w = false; sym::check(A.IsEqualTo(B, e) == w, "IsEqualTo"); sym::check(MatrixSym<Real>::AreEqual(B, A, e) == w, "AreEqual"); }
CASE(symshape) { int n = sym::pick(1, 3, "n"), m = sym::pick(1, 3, "m"); auto A = sSym("a", n), B = sSym("b", m); Vector<Real> v = sVec("v", m); bool bad = n != m; sym::check(sym_throws<std::exception>([&] { auto C = A + B; }) == bad, "sym + shape error"); sym::check(sym_throws<std::exception>([&] { auto C = A - B; }) == bad, "sym - shape error"); auto U = A; sym::check(sym_throws<std::exception>([&] { U += B; }) == bad, "sym += shape error"); sym::check(sym_throws<std::exception>([&] { auto C = A * B; }) == bad, "sym * shape error"); sym::check(sym_throws<std::exception>([&] { auto C = A * v; }) == bad, "sym * v shape error"); sym::check(sym_throws<std::exception>([&] { auto C = v * A; }) == bad, "v * sym shape error"); if (bad) eqM(D(U), D(A), n, n, "failed += keeps entries"); Matrix<Real> R(n, m); sym::check(sym_throws<std::exception>([&] { auto C = MatrixSym<Real>::FromLower(R); }) == bad, "FromLower needs square"); sym::check(sym_throws<std::exception>([&] { auto C = MatrixSym<Real>::FromUpper(R); }) == bad, "FromUpper needs square");
  bool keep = sym::flag("keep"); auto X = A; X.Resize(m, keep); sym::check(X.Dim() == m, "resize"); for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) sym::eq(X(i, j), (keep || n == m) && i < n && j < n ? A(i, j) : 0, "resize keeps the overlap"); }
CASE(symat) { auto A = sSym("a", 3); const auto &cA = A; int i = sym::integer("i", -2147483647 - 1, 2147483647), j = sym::integer("j", -2147483647 - 1, 2147483647); bool ok = i >= 0 && i < 3 && j >= 0 && j < 3; sym::check(sym_throws<MatrixAccessBoundsError>([&] { double x = cA.at(i, j); sym::eq(x, A(i, j), "at"); sym::eq(x, A(j, i), "at is symmetric"); }) == !ok, "sym at throws iff out of range"); sym::check(sym_throws<MatrixAccessBoundsError>([&] { A.at(i, j) = 3; sym::eq(A(j, i), 3, "write is symmetric"); }) == !ok, "mutable sym at throws iff out of range"); }
CASE(symfull) { Matrix<Real> a = sMat("a", 2, 2); int t = sym_throws<std::exception>([&] { auto s = MatrixSym<Real>::FromFullMatrix(a); sym::eq(s(0, 0), a(0, 0), "full 00"); sym::eq(s(1, 1), a(1, 1), "full 11"); sym::eq(s(0, 1) * 2, a(0, 1) + a(1, 0), "full matrix symmetrised"); }); sym::check(t == 0, "FromFullMatrix accepts square"); }
CASE(syminv) { auto A = sSym("a", 2); sym::assume(A(0, 0) > 1 && A(1, 1) > 1 && A(0, 0) * A(1, 1) - A(0, 1) * A(0, 1) > 0.5); Matrix<Real> I = A.GetInverse(), P = D(A) * I; eqM(P, Matrix<Real>::Identity(2), 2, 2, "sym inverse"); }
static TridiagonalMatrix<Real> sTri(const char *nm, int n, Matrix<Real> &d) { Vector<Real> b = sVec(sym::nm(nm, 1), n), m = sVec(sym::nm(nm, 2), n), a = sVec(sym::nm(nm, 3), n); b[0] = 0; a[n - 1] = 0; d = Matrix<Real>(n, n); for (int i = 0; i < n; i++) { d(i, i) = m[i]; if (i) d(i, i - 1) = b[i]; if (i < n - 1) d(i, i + 1) = a[i]; } return TridiagonalMatrix<Real>(n, b, m, a); }
static Matrix<Real> D(const TridiagonalMatrix<Real> &t) { int n = t.rows(); Matrix<Real> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = t(i, j); return m; }
CASEN(triops, 3, 4, 5) { Matrix<Real> a, b; auto A = sTri("a", n, a), B = sTri("b", n, b); double s = sym::real("s"), d = sym::real("d", 0.5, 4); eqM(D(A), a, n, n, "tridiagonal access"); eqM(D(A + B), a + b, n, n, "tri +"); eqM(D(A - B), a - b, n, n, "tri -"); eqM(D(A * s), a * s, n, n, "tri *"); eqM(D(s * A), a * s, n, n, "s* tri"); eqM(D(A / d) * d, a, n, n, "tri /"); eqM(D(A.GetTranspose()), a.transpose(), n, n, "tri transpose"); A(0, 1) = s; A(n - 1, n - 2) = d; A(1, 1) = s * d; sym::eq(D(A)(0, 1), s, "write above"); sym::eq(D(A)(n - 1, n - 2), d, "write below"); sym::eq(D(A)(1, 1), s * d, "write diagonal"); sym::check(THROWS(MatrixAccessBoundsError, A(0, 2) = 1), "write outside the band rejected"); sym::check(THROWS(MatrixAccessBoundsError, A(n - 1, 0) = 1), "write outside the band rejected"); }
CASEN(trisolve, 3, 4, 5) { Matrix<Real> a; auto A = sTri("a", n, a); Vector<Real> r = sVec("r", n); for (int i = 0; i < n; i++) { double o = 0; for (int j = 0; j < n; j++) if (j != i) { sym::assume(a(i, j) <= 1 && a(i, j) >= -1); } sym::assume(a(i, i) >= 3); (void)o; } Vector<Real> x = A.Solve(r), y = a * x; eqV(y, r, n, "tridiagonal solve satisfies the system"); }
CASE(trisolveany) { Matrix<Real> a; auto A = sTri("a", 3, a); Vector<Real> r = sVec("r", 3); int t = sym_throws<SingularMatrixError>([&] { Vector<Real> x = A.Solve(r); eqV(a * x, r, 3, "tridiagonal solve satisfies the system or throws"); }); sym::check(t <= 1, "only singular errors"); }
CASE(tribad) { int n = sym::pick(0, 5, "n"), p = sym::pick(2, 5, "p"), q = sym::pick(2, 5, "q"); Vector<Real> a(p, 1.0), b(n, 1.0), c(q, 1.0); sym::check(THROWS(MatrixDimensionError, TridiagonalMatrix<Real> t(n, a, b, c)) == (n < 3 || p != n || q != n), "tridiagonal constructor rejects mismatched sizes"); }
static BandDiagonalMatrix sBand(const char *nm, int n, int m1, int m2, Matrix<Real> &d) { Matrix<Real> s(n, m1 + m2 + 1, 0.0); d = Matrix<Real>(n, n, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < m1 + m2 + 1; j++) { int c = i + j - m1; if (c >= 0 && c < n) { s(i, j) = sym::real(nm, i * 8 + j, -8, 8); d(i, c) = s(i, j); } } return BandDiagonalMatrix(n, m1, m2, s); }
CASEN(band, 1, 4, 4) { int m1 = sym::pick(0, n < 3 ? n - 1 : 2, "m1"), m2 = sym::pick(0, n < 3 ? n - 1 : 2, "m2"); Matrix<Real> a, b; auto A = sBand("a", n, m1, m2, a), B = sBand("b", n, m1, m2, b); double s = sym::real("s"), d = sym::real("d", 0.5, 4); Vector<Real> v = sVec("v", n);
  eqM(A.ToFullMatrix(), a, n, n, "band to full"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { const auto &cA = A; sym::eq(cA(i, j), a(i, j), "band access"); sym::check(A.IsInBand(i, j) == (j - i <= m2 && i - j <= m1), "IsInBand"); if (!(j - i <= m2 && i - j <= m1)) sym::check(THROWS(MatrixAccessBoundsError, A(i, j) = 1), "write outside band rejected"); }
  eqV(A * v, a * v, n, "band * v"); eqM((A + B).ToFullMatrix(), a + b, n, n, "band +"); eqM((A - B).ToFullMatrix(), a - b, n, n, "band -"); eqM((A * s).ToFullMatrix(), a * s, n, n, "band *"); eqM((s * A).ToFullMatrix(), a * s, n, n, "s * band"); eqM((A / d).ToFullMatrix() * d, a, n, n, "band /"); eqM((-A).ToFullMatrix(), -a, n, n, "band neg"); eqM(A.Transpose().ToFullMatrix(), a.transpose(), n, n, "band transpose"); sym::eq(A.Trace(), a.trace(), "band trace");
  double ss = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ss += a(i, j) * a(i, j); double f = A.NormFrobenius(); sym::eq(f * f, ss, "band Frobenius"); auto dg = A.GetDiagonal(); for (int i = 0; i < n; i++) sym::eq(dg[i], a(i, i), "band diagonal"); for (int k = -m2; k <= m1; k++) { auto g = A.GetDiagonal(k); for (int i = 0; i < g.size(); i++) sym::eq(g[i], k >= 0 ? a(k + i, i) : a(i, i - k), "band diagonal k"); sym::check(g.size() == n - (k < 0 ? -k : k), "band diagonal length"); }
  auto X = A; X += B; eqM(X.ToFullMatrix(), a + b, n, n, "band +="); X -= B; eqM(X.ToFullMatrix(), a, n, n, "band -="); X *= s; eqM(X.ToFullMatrix(), a * s, n, n, "band *="); X = A; X /= d; eqM(X.ToFullMatrix() * d, a, n, n, "band /="); }
CASE(bandnorm) { Matrix<Real> a; auto A = sBand("a", 3, 1, 0, a); double m = 0; for (int i = 0; i < 3; i++) { double r = 0; for (int j = 0; j < 3; j++) r += std::fabs(a(i, j)); if (r > m) m = r; } sym::eq(A.NormInf(), m, "band NormInf"); Matrix<Real> c; auto S = sBand("s", 2, 1, 1, c); sym::check(S.IsSymmetric(0.5) == (std::fabs(c(0, 1) - c(1, 0)) <= 0.5), "band IsSymmetric"); }
