// BOUNDS: Matrix shapes 1..3 x 1..3 chosen independently (products up to 3x3 by 3x3, thorough 4x4), entries and scalars any real in [-8,8]; MatrixNM 2x2, 2x3, 3x3; Matrix3D up to 2x2x2
// OUTSIDE: rounding, complex element type except Hermitian/unitary helpers, matrix functions Exp/Sin/Cos beyond their truncated series
#include "h.h"
#include "mml/base/Matrix/Matrix3D.h"
CASEN(ring, 1, 3, 4) {
  Matrix<Real> A = sMat("a", n, n), B = sMat("b", n, n), C = sMat("c", n, n); double s = sym::real("s");
  Matrix<Real> P = A * B, S = A + B, D = A - B, N = -A, As = A * s, sA = s * A;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double p = 0; for (int k = 0; k < n; k++) p += A(i, k) * B(k, j);
    sym::eq(P(i, j), p, "product entry"); sym::eq(S(i, j), A(i, j) + B(i, j), "sum entry"); sym::eq(D(i, j), A(i, j) - B(i, j), "difference entry"); sym::eq(N(i, j), -A(i, j), "negation"); sym::eq(As(i, j), s * A(i, j), "scaling"); sym::eq(sA(i, j), s * A(i, j), "left scaling"); sym::obs("p", P(i, j)); }
  eqM(P * C, A * (B * C), n, n, "associative"); eqM(A * (B + C), A * B + A * C, n, n, "left distributive"); eqM((A + B) * C, A * C + B * C, n, n, "right distributive");
  eqM(P.transpose(), B.transpose() * A.transpose(), n, n, "(AB)^T = B^T A^T"); Matrix<Real> I = Matrix<Real>::Identity(n); eqM(A * I, A, n, n, "A I = A"); eqM(I * A, A, n, n, "I A = A");
  sym::eq((A * B).trace(), (B * A).trace(), "tr(AB)=tr(BA)");
  Matrix<Real> X = A; X += B; eqM(X, S, n, n, "+="); X = A; X -= B; eqM(X, D, n, n, "-="); X = A; X *= s; eqM(X, As, n, n, "*= scalar"); X += X; eqM(X, As * 2.0, n, n, "m += m"); X -= X; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym::eq(X(i, j), 0, "m -= m");
  X = A; X = X; eqM(X, A, n, n, "self assignment"); X = A; Matrix<Real> Y = X * X; eqM(Y, A * A, n, n, "square");
  eqM(Utils::Commutator(A, B), A * B - B * A, n, n, "commutator"); eqM(Utils::AntiCommutator(A, B), A * B + B * A, n, n, "anticommutator");
  Matrix<Real> Sy, An; Utils::MatrixDecomposeToSymAntisym(A, Sy, An); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { sym::eq(Sy(i, j) + An(i, j), A(i, j), "sym+antisym = A"); sym::eq(Sy(i, j), Sy(j, i), "symmetric part"); sym::eq(An(i, j), -An(j, i), "antisymmetric part"); }
}
CASEN(divide, 1, 3, 3) { Matrix<Real> A = sMat("a", n, n); double s = sym::real("s"); sym::assume(std::fabs(s) > 0.01); Matrix<Real> Q = A / s; eqM(Q * s, A, n, n, "(A/s)*s"); Matrix<Real> X = A; X /= s; eqM(X, Q, n, n, "/="); }
CASE(selfscale) { Matrix<Real> A = sMat("a", 2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { Matrix<Real> X = A; X *= X(i, j); eqM(X, A * A(i, j), 2, 2, "m *= m(i,j)"); sym::assume(A(i, j) > 0.1); Matrix<Real> Y = A; Y /= Y(i, j); eqM(Y, A / A(i, j), 2, 2, "m /= m(i,j)"); Matrix<Real> W = A; Matrix<Real> Z = W(i, j) * W; eqM(Z, A * A(i, j), 2, 2, "m(i,j)*m"); } }
CASE(selfscaleNM) { auto A = sMatNM<2, 2>("a", 0.5, 8); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { auto X = A; X *= X(i, j); eqM(X, A * A(i, j), 2, 2, "MatrixNM m *= m(i,j)"); } }
CASE(rect) { // every pair of shapes: result entries or a dimension error, never anything else
  int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"), p = sym::pick(1, 3, "p"), q = sym::pick(1, 3, "q"); Matrix<Real> A = sMat("a", r, c), B = sMat("b", p, q);
  bool same = r == p && c == q, mul = c == p;
  sym::check(sym_throws<MatrixDimensionError>([&] { auto X = A + B; sym::check(X.rows() == r && X.cols() == c, "A+B shape"); eqM(X, A, 0, 0, ""); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sym::eq(X(i, j), A(i, j) + B(i, j), "A+B"); }) == !same, "A+B throws iff shapes differ");
  sym::check(sym_throws<MatrixDimensionError>([&] { auto X = A - B; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sym::eq(X(i, j), A(i, j) - B(i, j), "A-B"); }) == !same, "A-B throws iff shapes differ");
  Matrix<Real> U = A; sym::check(sym_throws<MatrixDimensionError>([&] { U += B; }) == !same, "A+=B throws iff shapes differ"); if (!same) { sym::check(U.rows() == r && U.cols() == c, "failed += keeps shape"); eqM(U, A, r, c, "failed += keeps entries"); }
  U = A; sym::check(sym_throws<MatrixDimensionError>([&] { U -= B; }) == !same, "A-=B throws iff shapes differ");
  sym::check(sym_throws<MatrixDimensionError>([&] { auto X = A * B; sym::check(X.rows() == r && X.cols() == q, "A*B shape"); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) { double s = 0; for (int k = 0; k < c; k++) s += A(i, k) * B(k, j); sym::eq(X(i, j), s, "A*B"); } }) == !mul, "A*B throws iff inner dimensions differ");
  sym::check(sym_throws<MatrixDimensionError>([&] { (void)A.trace(); }) == (r != c), "trace throws iff not square");
  if (!same) { sym::check(!(A == B), "== false for different shapes"); sym::check(A != B, "!= true for different shapes"); sym::check(!A.IsEqualTo(B, 1e9), "IsEqualTo false for different shapes"); }
}
CASE(matvec) {
  int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"), m = sym::pick(0, 3, "m"); Matrix<Real> A = sMat("a", r, c); Vector<Real> v = sVec("v", m);
  sym::check(sym_throws<MatrixDimensionError>([&] { auto w = A * v; sym::check(w.size() == r, "A*v size"); for (int i = 0; i < r; i++) { double s = 0; for (int k = 0; k < c; k++) s += A(i, k) * v[k]; sym::eq(w[i], s, "A*v"); } }) == (c != m), "A*v throws iff sizes differ");
  sym::check(sym_throws<MatrixDimensionError>([&] { auto w = v * A; sym::check(w.size() == c, "v*A size"); for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < r; k++) s += v[k] * A(k, j); sym::eq(w[j], s, "v*A"); } }) == (r != m), "v*A throws iff sizes differ");
}
CASEN(norms, 1, 2, 2) {
  Matrix<Real> A = sMat("a", n, 2); double s = sym::real("s"); double l1 = 0, l2 = 0, li = 0; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { l1 += std::fabs(A(i, j)); l2 += A(i, j) * A(i, j); }
  sym::eq(A.NormL1(), l1, "L1"); double f = A.NormL2(); sym::check(f >= 0, "Frobenius >= 0"); sym::eq(f * f, l2, "Frobenius squared"); double m = A.NormLInf(); bool hit = m == 0; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { sym::check(std::fabs(A(i, j)) <= m, "LInf bounds entries"); if (std::fabs(A(i, j)) == m) hit = true; } sym::check(hit, "LInf attained"); sym::eq((A * s).NormL1(), std::fabs(s) * l1, "L1 homogeneous"); (void)li;
}
CASEN(pred, 1, 2, 3) {
  Matrix<Real> A = sMat("a", n, n, -2, 2); double e = sym::real("e", 0, 2); bool id = true, dg = true, sy = true, z = true, dd = true;
  for (int i = 0; i < n; i++) { double o = 0; for (int j = 0; j < n; j++) { double t = i == j ? 1 : 0; if (std::fabs(A(i, j) - t) > e) id = false; if (i != j && std::fabs(A(i, j)) > e) dg = false; if (std::fabs(A(i, j) - A(j, i)) > e) sy = false; if (std::fabs(A(i, j)) > e) z = false; if (i != j) o += std::fabs(A(i, j)); } if (std::fabs(A(i, i)) < o) dd = false; }
  sym::check(A.isIdentity(e) == id, "isIdentity"); sym::check(A.isDiagonal(e) == dg, "isDiagonal"); sym::check(A.isSymmetric(e) == sy, "isSymmetric"); sym::check(A.isZero(e) == z, "isZero"); sym::check(A.isDiagonallyDominant() == dd, "isDiagonallyDominant");
}
CASE(nonsquare) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"); sym::assume(r != c); Matrix<Real> A(r, c, 0.0); sym::check(!A.isIdentity(), "non-square is not identity"); sym::check(!A.isSymmetric(), "non-square is not symmetric"); sym::check(!A.isAntiSymmetric(), "non-square is not antisymmetric"); sym::check(!A.isDiagonallyDominant(), "non-square is not diagonally dominant");
  sym::check(THROWS(MatrixDimensionError, A.Invert()), "Invert of non-square throws"); sym::check(THROWS(MatrixDimensionError, A.Transpose()), "in-place Transpose of non-square throws"); sym::check(THROWS(MatrixDimensionError, A.MakeUnitMatrix()), "MakeUnitMatrix of non-square throws"); sym::check(THROWS(MatrixDimensionError, (void)A.GetLower()), "GetLower of non-square throws"); sym::check(THROWS(MatrixDimensionError, (void)A.GetUpper()), "GetUpper of non-square throws"); sym::check(THROWS(MatrixDimensionError, Utils::IsOrthogonal(A)), "IsOrthogonal of non-square throws"); }
CASEN(antisym, 2, 3, 3) { Matrix<Real> A(n, n, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { A(i, j) = sym::real("a", i * n + j, -4, 4); A(j, i) = sym::real("b", i * n + j, -4, 4); } bool as = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (std::fabs(A(i, j) + A(j, i)) > 0.5) as = false; sym::check(A.isAntiSymmetric(0.5) == as, "isAntiSymmetric"); Matrix<Real> d(n, n, 0.0); d(0, 0) = 3; sym::check(!d.isAntiSymmetric(), "non-zero diagonal is not antisymmetric"); }
CASEN(equal, 1, 2, 2) { Matrix<Real> A = sMat("a", n, 2), B = sMat("b", n, 2); double e = sym::real("e", 0, 3); bool eq = true, w = true; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { if (A(i, j) != B(i, j)) eq = false; if (std::fabs(A(i, j) - B(i, j)) > e) w = false; } sym::check((A == B) == eq, "=="); sym::check((A != B) == !eq, "!="); sym::check(A.IsEqualTo(B, e) == w, "IsEqualTo"); sym::check(Matrix<Real>::AreEqual(A, B, e) == w, "AreEqual"); }
template <int N, int M, int K> void nmcheck() {
  auto A = sMatNM<N, M>("a"), A2 = sMatNM<N, M>("c"); auto B = sMatNM<M, K>("b"); double s = sym::real("s"), d = sym::real("d", 0.5, 4); auto v = sVecN<M>("v"); auto u = sVecN<N>("u");
  auto P = A * B; for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) { double p = 0; for (int k = 0; k < M; k++) p += A(i, k) * B(k, j); sym::eq(P(i, j), p, "MatrixNM product"); sym::obs("p", P(i, j)); }
  for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) { sym::eq((A + A2)(i, j), A(i, j) + A2(i, j), "MatrixNM +"); sym::eq((A - A2)(i, j), A(i, j) - A2(i, j), "MatrixNM -"); sym::eq((-A)(i, j), -A(i, j), "MatrixNM neg"); sym::eq((A * s)(i, j), s * A(i, j), "MatrixNM * s"); sym::eq((s * A)(i, j), s * A(i, j), "s * MatrixNM"); sym::eq((A / d)(i, j) * d, A(i, j), "MatrixNM / s"); sym::eq(A.transpose()(j, i), A(i, j), "MatrixNM transpose"); }
  auto w = A * v; for (int i = 0; i < N; i++) { double p = 0; for (int k = 0; k < M; k++) p += A(i, k) * v[k]; sym::eq(w[i], p, "MatrixNM * v"); } auto x = u * A; for (int j = 0; j < M; j++) { double p = 0; for (int k = 0; k < N; k++) p += u[k] * A(k, j); sym::eq(x[j], p, "v * MatrixNM"); }
  auto X = A; X *= s; eqM(X, A * s, N, M, "MatrixNM *=");
  for (int i = 0; i < N; i++) { auto r = A.VectorFromRow(i); for (int j = 0; j < M; j++) sym::eq(r[j], A(i, j), "MatrixNM row"); } for (int j = 0; j < M; j++) { auto c = A.VectorFromColumn(j); for (int i = 0; i < N; i++) sym::eq(c[i], A(i, j), "MatrixNM column"); }
}
CASE(nm22) { nmcheck<2, 2, 2>(); }
CASE(nm23) { nmcheck<2, 3, 2>(); }
CASE(nm33) { nmcheck<3, 3, 3>(); }
CASE(nmvsdense) { auto A = sMatNM<3, 3>("a"), B = sMatNM<3, 3>("b"); Matrix<Real> a(3, 3), b(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { a(i, j) = A(i, j); b(i, j) = B(i, j); } eqM(A * B, a * b, 3, 3, "MatrixNM product = Matrix product"); sym::eq(A.Trace(), a.trace(), "Trace agrees"); eqM(A.GetLower(), a.GetLower(), 3, 3, "lower agrees"); eqM(A.GetUpper(false), a.GetUpper(false), 3, 3, "strict upper agrees"); auto T = A; T.Transpose(); Matrix<Real> t = a; t.Transpose(); eqM(T, t, 3, 3, "in-place transpose agrees"); eqM(t, a.transpose(), 3, 3, "in-place transpose = transpose"); auto J = MatrixNM<Real, 3, 3>::Identity(); eqM(A * J, A, 3, 3, "MatrixNM identity"); T.MakeUnitMatrix(); eqM(T, J, 3, 3, "MakeUnitMatrix"); auto dg = A.VectorFromDiagonal(); for (int i = 0; i < 3; i++) sym::eq(dg[i], A(i, i), "diagonal"); }
CASE(nmeq) { auto A = sMatNM<2, 2>("a"), B = sMatNM<2, 2>("b"); double e = sym::real("e", 0, 3); bool eq = true, w = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { if (A(i, j) != B(i, j)) eq = false; if (std::fabs(A(i, j) - B(i, j)) > e) w = false; } sym::check((A == B) == eq, "MatrixNM =="); sym::check((A != B) == !eq, "MatrixNM !="); sym::check(A.IsEqualTo(B, e) == w, "MatrixNM IsEqualTo"); }
CASE(build) { Vector<Real> v = sVec("v", 3), w = sVec("w", 3); auto R = Utils::RowMatrixFromVector(v), C = Utils::ColumnMatrixFromVector(v), D = Utils::DiagonalMatrixFromVector(v); sym::check(R.rows() == 1 && R.cols() == 3 && C.rows() == 3 && C.cols() == 1 && D.rows() == 3 && D.cols() == 3, "shapes"); for (int i = 0; i < 3; i++) { sym::eq(R(0, i), v[i], "row matrix"); sym::eq(C(i, 0), v[i], "column matrix"); for (int j = 0; j < 3; j++) { sym::eq(D(i, j), i == j ? v[i] : 0, "diagonal matrix"); sym::eq(Matrix<Real>::Diagonal(v)(i, j), i == j ? v[i] : 0, "Matrix::Diagonal"); } } auto MR = Utils::MatrixFromVectorsInRows(std::vector<Vector<Real>>{v, w}), MC = Utils::MatrixFromVectorsInColumns(std::vector<Vector<Real>>{v, w}); for (int i = 0; i < 3; i++) { sym::eq(MR(0, i), v[i], "rows"); sym::eq(MR(1, i), w[i], "rows"); sym::eq(MC(i, 0), v[i], "columns"); sym::eq(MC(i, 1), w[i], "columns"); } }
CASE(orth) { double p = sym::real("p", -2, 2), q = sym::real("q", -2, 2); Matrix<Real> A(2, 2, 0.0); bool sw = sym::flag("sw"); A(0, sw) = p; A(1, !sw) = q; bool r = Utils::IsOrthogonal(A, 0.01); double dp = std::fabs(p * p - 1), dq = std::fabs(q * q - 1); if (r) sym::check(dp <= 0.011 && dq <= 0.011, "IsOrthogonal => A A^T near I"); else sym::check(dp > 0.009 || dq > 0.009, "not IsOrthogonal => some entry off");
  double t = sym::real("t", -2, 2); Matrix<Real> B(2, 2); B(0, 0) = B(1, 1) = std::cos(t); B(0, 1) = -std::sin(t); B(1, 0) = std::sin(t); sym::check(Utils::IsOrthogonal(B, 1e-6), "rotations are orthogonal"); }
CASE(m3d) { Matrix3D<Real> A(2, 2, 2), B(2, 2, 2); double s = sym::real("s"), d = sym::real("d", 0.5, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { A(i, j, k) = sym::real("a", i * 4 + j * 2 + k, -8, 8); B(i, j, k) = sym::real("b", i * 4 + j * 2 + k, -8, 8); }
  Matrix3D<Real> S = A + B, D = A - B, P = A * s, Q = A / d, R = A + s; Matrix3D<Real> X = A; X += X(0, 0, 0); Matrix3D<Real> Y = A; Y *= Y(0, 0, 1); Matrix3D<Real> W = A; W = B; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { double a = A(i, j, k), b = B(i, j, k); sym::eq(S(i, j, k), a + b, "3D +"); sym::eq(D(i, j, k), a - b, "3D -"); sym::eq(P(i, j, k), a * s, "3D *"); sym::eq(Q(i, j, k) * d, a, "3D /"); sym::eq(R(i, j, k), a + s, "3D + scalar"); sym::eq(X(i, j, k), a + A(0, 0, 0), "3D m += m(0,0,0)"); sym::eq(Y(i, j, k), a * A(0, 0, 1), "3D m *= m(0,0,1)"); sym::eq(W(i, j, k), b, "3D assignment"); sym::eq(A[i][j][k], a, "3D pointer access"); }
  int d1 = sym::pick(0, 3, "d1"), d2 = sym::pick(1, 3, "d2"); Matrix3D<Real> Z(2, 1, 2, 1.0); sym::check(sym_throws<std::exception>([&] { Z += A; }) == 1, "3D += shape error"); if (d1 > 0) { Z.Resize(d1, d2, 2); sym::check(Z.dim1() == d1 && Z.dim2() == d2 && Z.dim3() == 2 && Z.size() == d1 * d2 * 2, "3D resize"); for (int i = 0; i < d1; i++) for (int j = 0; j < d2; j++) for (int k = 0; k < 2; k++) { Z(i, j, k) = i * 100 + j * 10 + k; } for (int i = 0; i < d1; i++) for (int j = 0; j < d2; j++) for (int k = 0; k < 2; k++) { sym::eq(Z(i, j, k), i * 100 + j * 10 + k, "3D cells are distinct"); sym::eq(Z[i][j][k], i * 100 + j * 10 + k, "3D pointers follow resize"); } } }
CASE(at3d) { Matrix3D<Real> A(2, 3, 2, 1.0); int i = sym::integer("i", -3000, 3000), j = sym::integer("j", -3000, 3000), k = sym::integer("k", -3000, 3000); bool ok = i >= 0 && i < 2 && j >= 0 && j < 3 && k >= 0 && k < 2; sym::check(sym_throws<std::exception>([&] { A.At(i, j, k) = 2; }) == !ok, "3D At throws iff out of range"); }
