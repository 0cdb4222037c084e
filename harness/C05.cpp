// BOUNDS: 1x1, 2x2 fully symbolic in [-8,8]; 3x3 all permuted diagonals; 3x3 patterns with two symbolic entries; one 4x4 pattern; symbolic right-hand sides (every zero pattern); band systems up to 4 with bandwidths 0..2, symmetric positive definite up to 3x3; solutions compared exactly when |det| >= 0.05 (near-singular systems: only no wrong error type)
// OUTSIDE: rounding error growth; complex systems
#include "la.h"
static bool nonsing(const Matrix<Real> &A) { double d = detOf(A); return d > 0.05 || d < -0.05; }
#define FAM(id, ...) CASEN(id##s, 1, 4, 4) { __VA_ARGS__ } CASEN(id##p, 10, 15, 21) { __VA_ARGS__ }
FAM(lu, Matrix<Real> A = fam(n); int N = A.rows(); Vector<Real> b = sVec("b", N); sym::assume(nonsing(A)); LUSolver<Real> s(A); Vector<Real> x = s.Solve(b); eqV(A * x, b, N, "LU solution satisfies the system"); sym::obs("x", x[0]); sym::eq(s.det(), detOf(A), "LU determinant"); Vector<Real> z(N); z[N - 1] = b[0]; Vector<Real> y = s.Solve(z); eqV(A * y, z, N, "second right-hand side (leading zeros)"); Vector<Real> w(N + 1); sym::check(!s.Solve(b, w), "size mismatch refused"); )
FAM(luip, Matrix<Real> A = famq(n); Matrix<Real> K = A; int N = A.rows(); Vector<Real> b = sVec("b", N); sym::assume(nonsing(A)); LUSolverInPlace<Real> s(A); Vector<Real> x = s.Solve(b); eqV(K * x, b, N, "in-place LU solution satisfies the system"); )
FAM(gj, Matrix<Real> A = famq(n); Matrix<Real> K = A; int N = A.rows(); Vector<Real> b = sVec("b", N); sym::assume(nonsing(A)); Vector<Real> x = GaussJordanSolver<Real>::SolveConst(A, b); eqV(K * x, b, N, "Gauss-Jordan solution satisfies the system"); eqM(A, K, N, N, "SolveConst leaves A"); )
CASEN(gjinplace, 1, 4, 4) { Matrix<Real> A = famq(n), K = A; int N = A.rows(); sym::assume(nonsing(A)); Matrix<Real> B = sMat("B", N, 2), B0 = B; Matrix<Real> A1 = A; GaussJordanSolver<Real>::SolveInPlace(A1, B); eqM(K * B, B0, N, 2, "Gauss-Jordan multi-RHS"); eqM(K * A1, Matrix<Real>::Identity(N), N, N, "A replaced by its inverse"); Vector<Real> v(N); for (int i = 0; i < N; i++) v[i] = B0(i, 1); Matrix<Real> A2 = A; GaussJordanSolver<Real>::SolveInPlace(A2, v); for (int i = 0; i < N; i++) sym::eq(v[i], B(i, 1), "vector form agrees"); }
CASEN(lumulti, 1, 4, 4) { Matrix<Real> A = famq(n); int N = A.rows(); sym::assume(nonsing(A)); Matrix<Real> B = sMat("B", N, 2), X(N, 2); LUSolver<Real> s(A); s.Solve(B, X); eqM(A * X, B, N, 2, "LU multi-RHS"); Matrix<Real> I; s.inverse(I); eqM(A * I, Matrix<Real>::Identity(N), N, N, "LU inverse"); Matrix<Real> C = A; LUSolverInPlace<Real> t(C); Matrix<Real> Y = t.Solve(B); eqM(A * Y, B, N, 2, "in-place LU multi-RHS"); }
CASE(shapes) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"), m = sym::pick(1, 3, "m"); Matrix<Real> A(r, c, 0.0); for (int i = 0; i < r && i < c; i++) A(i, i) = 2; Vector<Real> b(m, 1.0); bool bad = r != c || m != r;
  sym::check(sym_throws<std::exception>([&] { auto x = GaussJordanSolver<Real>::SolveConst(A, b); }) == bad, "Gauss-Jordan shape error"); sym::check(sym_throws<std::exception>([&] { LUSolver<Real> s(A); auto x = s.Solve(b); }) == bad, "LU shape error"); sym::check(sym_throws<std::exception>([&] { Matrix<Real> B = A; LUSolverInPlace<Real> s(B); auto x = s.Solve(b); }) == bad, "in-place LU shape error"); sym::check(sym_throws<std::exception>([&] { CholeskySolver<Real> s(A); auto x = s.Solve(b); }) == bad, "Cholesky shape error"); sym::check(sym_throws<std::exception>([&] { QRSolver<Real> s(A); auto x = s.Solve(b); }) == bad, "QR shape error"); Matrix<Real> M(r, c), R(m, 2, 1.0), X(m, 2); M = A; sym::check(sym_throws<std::exception>([&] { GaussJordanSolver<Real>::SolveInPlace(M, R); }) == bad, "multi-RHS shape error"); }
CASE(singular) { // rank-deficient matrices must be refused by every direct solver
  double u = sym::real("u", -4, 4), v = sym::real("v", -4, 4); int k = sym::pick(0, 3, "k"); Matrix<Real> A(2, 2, 0.0); if (k == 0) { } else if (k == 1) { A(0, 0) = u; A(0, 1) = v; } else if (k == 2) { A(0, 0) = u; A(1, 0) = v; } else { A(0, 0) = u; A(0, 1) = 2 * u; A(1, 0) = v; A(1, 1) = 2 * v; } Vector<Real> b(2); b[0] = 1; b[1] = sym::real("b", -4, 4);
  auto refused = [&](int t, const char *l) { sym::check(t != 0, l); }; refused(sym_throws<SingularMatrixError>([&] { LUSolver<Real> s(A); }), "LU refuses singular"); refused(sym_throws<SingularMatrixError>([&] { Matrix<Real> C = A; LUSolverInPlace<Real> s(C); }), "in-place LU refuses singular"); refused(sym_throws<SingularMatrixError>([&] { auto x = GaussJordanSolver<Real>::SolveConst(A, b); }), "Gauss-Jordan refuses singular"); refused(sym_throws<SingularMatrixError>([&] { Matrix<Real> C = A.inverse(); }), "Matrix inverse refuses singular"); MatrixNM<Real, 2, 2> N; for (int i = 0; i < 4; i++) N(i / 2, i % 2) = A(i / 2, i % 2); refused(sym_throws<SingularMatrixError>([&] { auto C = N.GetInverse(); }), "MatrixNM inverse refuses singular"); if (A(0, 1) == A(1, 0)) refused(sym_throws<SingularMatrixError>([&] { CholeskySolver<Real> s(A); }), "Cholesky refuses singular");
  Matrix<Real> S(2, 3, 0.0); S(0, 1) = A(0, 0); S(0, 2) = A(0, 1); S(1, 0) = A(1, 0); S(1, 1) = A(1, 1); refused(sym_throws<SingularMatrixError>([&] { BandDiagonalMatrix B(2, 1, 1, S); BandDiagonalSolver s(B); }), "band solver refuses singular"); }
CASEN(band, 1, 3, 4) { int m1 = sym::pick(0, n < 3 ? n - 1 : 2, "m1"), m2 = sym::pick(0, n < 3 ? n - 1 : 2, "m2"); Matrix<Real> st(n, m1 + m2 + 1, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j <= m1 + m2; j++) { int c = i + j - m1; if (c >= 0 && c < n) st(i, j) = c == i ? (i % 2 ? 3 : -1) : 1 + (i + 2 * c) % 3; } if (n > 1) { st(0, m1) = sym::real("p", -4, 4); if (m1) st(n - 1, m1 - 1) = sym::real("q", -4, 4); } else st(0, 0) = sym::real("p", -4, 4); BandDiagonalMatrix A(n, m1, m2, st); Matrix<Real> F = A.ToFullMatrix(); sym::assume(nonsing(F)); Vector<Real> b = sVec("b", n); BandDiagonalSolver s(A); Vector<Real> x = s.Solve(b); eqV(F * x, b, n, "band solution satisfies the system"); sym::eq(s.Det(), detOf(F), "band determinant"); Matrix<Real> B = sMat("B", n, 2); eqM(F * s.Solve(B), B, n, 2, "band multi-RHS"); }
static Matrix<Real> spd(int n) { Matrix<Real> L(n, n, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L(i, j) = i == j ? sym::real("l", i * 4 + j, 0.25, 4) : sym::real("l", i * 4 + j, -4, 4); return L; }
CASEN(chol, 1, 3, 3) { Matrix<Real> L = spd(n), A = L * L.transpose(); CholeskySolver<Real> s(A); eqM(s.L() * s.L().transpose(), A, n, n, "L L^T = A"); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) sym::eq(s.L()(i, j), 0, "L lower triangular"); Vector<Real> b = sVec("b", n); if (n < 3) { Vector<Real> x = s.Solve(b); eqV(A * x, b, n, "Cholesky solution satisfies the system"); Matrix<Real> I; s.inverse(I); eqM(A * I, Matrix<Real>::Identity(n), n, n, "Cholesky inverse"); } }
CASE(chol3) { Matrix<Real> A = pat3(0); A = A * A.transpose(); Vector<Real> b = sVec("b", 3); CholeskySolver<Real> s(A); eqV(A * s.Solve(b), b, 3, "Cholesky solution 3x3"); }
CASE(cholnpd) { Matrix<Real> A(2, 2); A(0, 0) = sym::real("a", -4, 4); A(1, 1) = sym::real("c", -4, 4); A(0, 1) = A(1, 0) = sym::real("b", -4, 4); bool pd = A(0, 0) > 0 && A(0, 0) * A(1, 1) - A(0, 1) * A(0, 1) > 0; int t = sym_throws<SingularMatrixError>([&] { CholeskySolver<Real> s(A); }); sym::check(t == !pd, "Cholesky succeeds exactly on positive definite matrices"); Matrix<Real> B = A; B(0, 1) += 1; sym::check(sym_throws<std::exception>([&] { CholeskySolver<Real> s(B); }) == 1, "Cholesky refuses non-symmetric input"); }
CASET(tworank) { Matrix<Real> A = fam(2); sym::assume(nonsing(A)); Vector<Real> b = sVec("b", 2); Vector<Real> x = LUSolver<Real>(A).Solve(b), y = GaussJordanSolver<Real>::SolveConst(A, b); eqV(x, y, 2, "LU and Gauss-Jordan agree"); }
CASEN(detailed, 1, 2, 3) { Matrix<Real> A = famq(n); int N = A.rows(); sym::assume(nonsing(A)); Vector<Real> b = sVec("b", N); LinearSolverConfig c; c.estimate_error = true; auto r = LUSolveDetailed(A, b, c); eqV(A * r.solution, b, N, "detailed LU solution"); sym::eq(r.residual_norm, 0, "residual is the true residual"); auto g = GaussJordanSolveDetailed(A, b, c); eqV(A * g.solution, b, N, "detailed Gauss-Jordan solution"); }
