// BOUNDS: QR of all 1x1 and 2x2 matrices with entries in [-4,4]; of 14 patterns from 2x2 to 5x3 at every scale in [0.5,2] times 1e-30, 1 and 1e30; SVD of the same patterns and their transposes (ranks 0 to 3); every right-hand side in [-2,2]; triangular systems with all entries symbolic; predicates of all 2x2 matrices and of 3x3 matrices with four symbolic entries
// OUTSIDE: rounding growth on ill-conditioned matrices; the text of reports; eigenvalues (own property)
#include "h.h"
#include "mml/core/LinAlgEqSolvers/LinAlgQR.h"
#include "mml/core/LinAlgEqSolvers/LinAlgSVD.h"
#include "mml/systems/LinearSystem.h"
using namespace MML::Systems; typedef Matrix<Real> M; typedef Vector<Real> V; typedef LinearSystem<Real> LS;
struct Pat { int r, c, rank; double a[15]; };
static const Pat P[] = {{2, 2, 2, {3, 1, 4, -2}}, {2, 2, 2, {0, 2, 5, 1}}, {3, 3, 3, {4, 1, -1, 2, 5, 1, 1, -1, 6}}, {3, 3, 3, {0, 2, 1, 3, 0, 1, 1, 1, 0}}, {3, 3, 3, {-1, 2, 0, 0, 3, 1, 0, 0, 2}}, {3, 2, 2, {1, 1, 1, 2, 1, 4}}, {4, 2, 2, {0, 1, 2, 0, -1, 1, 1, 1}}, {4, 3, 3, {1, 0, 2, 0, 1, 1, 2, 1, 0, 1, 1, 1}}, {5, 3, 3, {1, -2, 4, 1, -1, 1, 1, 0, 0, 1, 1, 1, 1, 2, 4}}, {2, 2, 1, {1, 2, 2, 4}}, {3, 3, 2, {1, 2, 3, 4, 5, 6, 7, 8, 9}}, {3, 2, 1, {1, 1, 2, 2, 3, 3}}, {3, 3, 1, {1, 1, 1, 1, 1, 1, 1, 1, 1}}, {2, 2, 0, {0, 0, 0, 0}}, {4, 3, 2, {1, 1, 2, 0, 1, 1, 2, 0, 2, 1, 3, 4}}, {1, 1, 0, {0}}, {1, 1, 1, {-3}}};
static const int NF = 9, NP = 17;
static M pat(int n, double s = 1) { const Pat &p = P[n]; M A(p.r, p.c); for (int i = 0; i < p.r * p.c; i++) A(i / p.c, i % p.c) = p.a[i] * s; return A; }
static double scale(double lo = 0.5) { static const double E[] = {1e-30, 1, 1e30}; return E[sym::pick(0, 2, "e")] * sym::real("s", lo, 2); }
static V rhs(int n) { return sVec("b", n, -2, 2); }
static void orth(const M &Q, int k, const char *l) { for (int i = 0; i < k; i++) for (int j = i; j < k; j++) { double d = 0; for (int r = 0; r < Q.rows(); r++) d = d + Q(r, i) * Q(r, j); sym::eq(d, i == j ? 1 : 0, l); } }
static void normal(const M &A, const V &x, const V &b, double s, const char *l) { int m = A.rows(), n = A.cols(); V r(m); for (int i = 0; i < m; i++) { r[i] = -b[i]; for (int j = 0; j < n; j++) r[i] = r[i] + A(i, j) * x[j]; } for (int j = 0; j < n; j++) { double d = 0; for (int i = 0; i < m; i++) d = d + A(i, j) / s * r[i]; sym::eq(d, 0, l); } }
static void qrchecks(const M &A, QRSolver<Real> &q, double s) { int m = A.rows(), n = A.cols(); M Q = q.GetQ(), R = q.GetR(); orth(Q, n, "Q has orthonormal columns"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double e = 0; for (int k = 0; k < n; k++) e = e + Q(i, k) * R(k, j) / s; sym::eq(e, A(i, j) / s, "A = QR"); } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym::check(R(i, j) == 0, "R upper triangular"); }
CASE(qr1) { double a = sym::real("a", -4, 4), b = sym::real("b", -2, 2); sym::obs("a", a); M A(1, 1); A(0, 0) = a; QRSolver<Real> q(A); if (a == 0) { sym::check(q.isSingular() && q.IsSingular() && q.det() == 0, "zero is singular"); sym::check(THROWS(SingularMatrixError, q.Solve(V{b})), "refused"); return; } sym::check(!q.isSingular(), "not singular"); sym::eq(q.det(), a, "determinant"); if (std::fabs(a) > 0.1) { sym::eq(q.Solve(V{b})[0] * a, b, "solution"); sym::eq(q.LeastSquaresSolve(V{b})[0] * a, b, "least squares"); qrchecks(A, q, 1); } }
CASEN(qr2, 0, 1, 3) { double c = sym::real("c", 0.25, 4), d = sym::real("d", -4, 4); M A(2, 2); A(0, 0) = n & 1 ? 3 : -2; A(1, 0) = n & 2 ? -1 : 2; A(0, 1) = c; A(1, 1) = d; sym::obs("c", c); double D = A(0, 0) * d - c * A(1, 0); sym::assume(std::fabs(D) > 0.05); QRSolver<Real> q(A); sym::check(!q.isSingular(), "not singular"); sym::eq(q.det(), D, "determinant"); qrchecks(A, q, 1); V b = rhs(2), x = q.Solve(b); for (int i = 0; i < 2; i++) sym::eq(D * (A(i, 0) * x[0] + A(i, 1) * x[1] - b[i]), 0, "solution"); }
CASEN(qr, 0, 8, 8) { double s = scale(); M A = pat(n, s); int m = A.rows(), c = A.cols(); sym::obs("s", s); QRSolver<Real> q(A); sym::check(!q.isSingular() && q.rows() == m && q.cols() == c, "regular at every scale"); qrchecks(A, q, s); V b = rhs(m); if (m == c) { V x = q.Solve(b); for (int i = 0; i < m; i++) x[i] = x[i] * s; eqV(pat(n) * x, b, m, "solution satisfies the system"); double D = 1; for (int i = 0; i < m; i++) D = D * s; V y(m); M I; q.inverse(I); M J = I * s, K = pat(n) * J; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) sym::eq(K(i, j), i == j, "inverse"); sym::eq(q.det() / D, Utils::Det(pat(n)), "determinant"); } else sym::check(THROWS(MatrixDimensionError, q.Solve(b)) && THROWS(MatrixDimensionError, q.det()), "square only"); V x = q.LeastSquaresSolve(b); for (int i = 0; i < c; i++) x[i] = x[i] * s; normal(pat(n), x, b, 1, "residual orthogonal to the columns"); V t(m), u(m); q.QtMultiply(b, t); q.QMultiply(t, u); eqV(u, b, m, "Q Q^T"); double n1 = 0, n2 = 0; for (int i = 0; i < m; i++) n1 = n1 + b[i] * b[i], n2 = n2 + t[i] * t[i]; sym::eq(n1, n2, "Q keeps lengths"); sym::check(THROWS(VectorDimensionError, q.LeastSquaresSolve(V(m + 1))) && THROWS(VectorDimensionError, q.QtMultiply(V(m + 1), t)) && THROWS(VectorDimensionError, q.QMultiply(V(m + 1), t)) && THROWS(VectorDimensionError, q.RSolve(V(c + 1), t)), "sizes"); }
CASEN(qrsing, 9, 15, 15) { double s = scale(); M A = pat(n, s); sym::obs("s", s); QRSolver<Real> q(A); V b = rhs(A.rows()); sym::check(q.isSingular(), "rank-deficient at every scale"); sym::check(THROWS(SingularMatrixError, q.LeastSquaresSolve(b)), "least squares refused"); if (A.rows() == A.cols()) { M I; sym::check(q.det() == 0 && THROWS(SingularMatrixError, q.Solve(b)) && THROWS(SingularMatrixError, q.inverse(I)), "square system refused"); } }
CASE(qrshape) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"); double a = sym::real("a", 1, 2); sym::obs("a", a); M A(r, c, a); sym::check(THROWS(MatrixDimensionError, QRSolver<Real>{A}) == (r < c), "wide matrices refused"); }
static M svdpat(int n, double s) { M A = pat(n % NP, s); return n < NP ? A : A.transpose(); }
static void svd(int n) { static const double E[] = {1, 1e-30, 1e30}; int e0 = sym::pick(0, 2, "e"); double s = E[e0]; if (P[n % NP].c < 3 && P[n % NP].r < 3) s = s * sym::real("s", 1, 2); M A = svdpat(n, s), A1 = svdpat(n, 1); int m = A.rows(), c = A.cols(), rk = P[n % NP].rank; V b = rhs(m); sym::obs("b", b[0]); SVDecompositionSolver<Real> q(A); M U = q.getU(), W = q.getV(); V w = q.getW(); for (int i = 0; i < m; i++) for (int j = 0; j < c; j++) { double e = 0; for (int k = 0; k < c; k++) e = e + U(i, k) * w[k] / s * W(j, k); sym::eq(e, A1(i, j), "A = U w V^T"); } orth(W, c, "V orthogonal"); orth(U, m >= c ? c : rk, "U orthonormal"); for (int i = 0; i < c; i++) sym::check(w[i] >= 0 && (i == 0 || w[i] <= w[i - 1]), "singular values in descending order"); sym::check(q.Rank() == rk && q.Nullity() == c - rk, "rank and nullity"); M R = q.Range(), N = q.Nullspace(); sym::check(R.cols() == rk && N.cols() == c - rk && (rk == 0 || R.rows() == m) && (rk == c || N.rows() == c), "sizes of the subspaces"); M AN; if (rk < c) AN = A1 * N; for (int i = 0; i < m; i++) for (int j = 0; j < c - rk; j++) sym::eq(AN(i, j), 0, "null space"); orth(N, c - rk, "null basis"); orth(R, rk, "range basis"); if (rk > 0) eqM(R * (R.transpose() * A1), A1, m, c, "the range contains every column");
  V x = q.Solve(b); for (int i = 0; i < c; i++) x[i] = x[i] * s; normal(A1, x, b, 1, "least squares"); for (int j = 0; j < c - rk; j++) { double d = 0; for (int i = 0; i < c; i++) d = d + N(i, j) * x[i]; sym::eq(d, 0, "minimal norm"); } M B(m, 2), X(c, 2); for (int i = 0; i < m; i++) B(i, 0) = b[i], B(i, 1) = 1; q.Solve(B, X); for (int i = 0; i < c; i++) sym::eq(X(i, 0) * s, x[i], "several right-hand sides"); sym::check(THROWS(VectorDimensionError, q.Solve(V(m + 1))), "size"); double ic = q.inv_condition(); if (rk == c) sym::eq(ic * w[0] / s, w[c - 1] / s, "inverse condition number"); else sym::check(ic >= 0 && ic < 1e-10, "singular"); if (rk > 1) { double t = (w[rk - 1] + w[rk - 2]) / 2; if (w[rk - 2] > 1.01 * w[rk - 1]) { sym::check(q.Rank(t) == rk - 1 && q.Nullity(t) == c - rk + 1, "threshold"); M Rt = q.Range(t), Nt = q.Nullspace(t); sym::check(Rt.cols() == rk - 1 && Nt.cols() == c - rk + 1, "subspaces with a threshold"); for (int i = 0; i < m; i++) for (int j = 0; j < rk - 1; j++) sym::eq(Rt(i, j), U(i, j), "range with a threshold"); for (int i = 0; i < c; i++) for (int j = 0; j <= c - rk; j++) sym::eq(Nt(i, j), W(i, j + rk - 1), "null space with a threshold"); V z = LS(A, b).SolveBySVD(t); LS ls(A); sym::check(ls.NullSpace(t).cols() == c - rk + 1 && ls.ColumnSpace(t).cols() == rk - 1, "facade with a threshold"); M Y = ls.PseudoInverse(t); V y = q.Solve(b, t); for (int i = 0; i < c; i++) { double e = 0; for (int j = 0; j < m; j++) e = e + Y(i, j) * s * b[j]; sym::eq(z[i] * s, y[i] * s, "solution with a threshold"); sym::eq(e, y[i] * s, "pseudoinverse with a threshold"); } for (int j = 0; j < c; j++) { double d = 0; for (int i = 0; i < c; i++) d = d + W(i, j) * y[i] * s; double e = 0; if (j < rk - 1) { for (int i = 0; i < m; i++) e = e + U(i, j) * b[i]; e = e / (w[j] / s); } sym::eq(d, e, "truncated solution"); } } } }
CASEN(svd, 0, 16, 33) { svd(n); }
CASEN(svdt, 17, 26, 33) { svd(n); }
CASE(svdempty) { double a = sym::real("a", 1, 2); sym::obs("a", a); sym::check(THROWS(MatrixDimensionError, SVDecompositionSolver<Real>{M(0, 0)}), "empty refused"); SVDecompositionSolver<Real> q(M(1, 1, a)); sym::eq(q.getW()[0], a, "singular value of a number"); SVDecompositionSolver<Real> p(M(1, 1, -a)); sym::eq(p.getW()[0], a, "singular value of a negative number"); }
CASE(svddiag) { double a = sym::real("a", 0.5, 4), b = sym::real("b", -4, 4); sym::assume(std::fabs(b) > 0.1); sym::obs("a", a); M A(2, 2, 0.0); A(0, 0) = a; A(1, 1) = b; SVDecompositionSolver<Real> q(A); double c = std::fabs(b); V w = q.getW(); sym::eq(w[0], c > a ? c : a, "largest"); sym::eq(w[1], c > a ? a : c, "smallest"); sym::eq(q.inv_condition() * w[0], w[1], "inverse condition number"); V r = rhs(2), x = q.Solve(r); sym::eq(x[0] * a, r[0], "solution"); sym::eq(x[1] * b, r[1], "solution"); }
// the facade
CASEN(upper, 1, 3, 4) { M A(n, n, 0.0); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) A(i, j) = i == j ? sym::real("d", 0.5, 2) : sym::real("u", -2, 2); V b = rhs(n); sym::obs("d", A(0, 0)); if (n > 1) sym::assume(A(0, 1) != 0); V x = LS(A, b).Solve(); eqV(A * x, b, n, "upper triangular system"); }
CASEN(lower, 1, 3, 4) { M A(n, n, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = i == j ? -sym::real("d", 0.5, 2) : sym::real("u", -2, 2); V b = rhs(n); sym::obs("d", A(0, 0)); if (n > 1) sym::assume(A(1, 0) != 0); V x = SolveLinearSystem<Real>(A, b); eqV(A * x, b, n, "lower triangular system"); }
CASEN(solve, 0, 16, 33) { static const double E[] = {1, 1e-14, 1e14}; double s = E[sym::pick(0, 2, "e")]; M A = svdpat(n, s), A1 = svdpat(n, 1); int m = A.rows(), c = A.cols(), rk = P[n % NP].rank; V b = rhs(m); sym::obs("b", b[0]); LS l(A, b); if (m > c && rk < c) { sym::check(THROWS(SingularMatrixError, l.Solve()), "rank-deficient least squares refused"); return; } V x = l.Solve(); for (int i = 0; i < c; i++) x[i] = x[i] * s; normal(A1, x, b, 1, "least squares solution"); if (rk < c) { M N = l.NullSpace(); sym::check(N.cols() == c - rk, "null space"); for (int j = 0; j < c - rk; j++) { double d = 0; for (int i = 0; i < c; i++) d = d + N(i, j) * x[i]; sym::eq(d, 0, "minimal norm"); } } sym::check(l.Rank() == rk && l.Nullity() == c - rk && l.ColumnSpace().cols() == rk, "rank"); }
CASE(tiny) { double k[] = {1, 1e-7, 1e-13, 1e-25}; double s = k[sym::pick(0, 3, "s")]; int f = sym::pick(0, 3, "f"); static const double F[4][4] = {{2, 1, 0.5, 3}, {2, 1, 1, 3}, {4, 1, 0, 3}, {1, 0, 5, 2}}; M A(2, 2), A1(2, 2); for (int i = 0; i < 4; i++) A(i / 2, i % 2) = F[f][i] * s, A1(i / 2, i % 2) = F[f][i]; V b = rhs(2); sym::obs("b", b[0]); V x = LS(A, b).Solve(); eqV(A1 * (x * s), b, 2, "solution of a small system"); }
CASEN(methods, 0, 5, 5) { static const double S[6][9] = {{4, 1, -1, 1, 5, 1, -1, 1, 6}, {4, 1, -1, 2, 5, 1, 1, -1, 6}, {0, 2, 1, 3, 0, 1, 1, 1, 0}, {2, -1, 0, -1, 2, -1, 0, -1, 2}, {1, 2, 3, 0, -4, 5, 0, 0, 2}, {3, 0, 0, 0, -2, 0, 0, 0, 7}}; M A(3, 3); for (int i = 0; i < 9; i++) A(i / 3, i % 3) = S[n][i]; V b = rhs(3); sym::obs("b", b[0]); LS l(A, b); eqV(A * l.Solve(), b, 3, "automatic"); eqV(A * l.SolveByLU(), b, 3, "LU"); eqV(A * l.SolveByGaussJordan(), b, 3, "Gauss-Jordan"); eqV(A * l.SolveByQR(), b, 3, "QR"); eqV(A * l.SolveBySVD(), b, 3, "SVD"); eqV(A * l.SolveLeastSquares(), b, 3, "least squares"); bool pd = n == 0 || n == 3; sym::check(l.isPositiveDefinite() == pd, "positive definite"); if (pd) { eqV(A * l.SolveByCholesky(), b, 3, "Cholesky"); auto c = l.GetCholesky(); sym::check(c.valid, "Cholesky valid"); eqM(c.L * c.L.transpose(), A, 3, 3, "A = L L^T"); } else sym::check(THROWS(std::exception, l.SolveByCholesky()) && !l.GetCholesky().valid, "not positive definite");
  auto lu = l.GetLU(); sym::check(lu.valid && lu.permutation.size() == 3, "LU valid"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = 0; for (int k = 0; k < 3; k++) e = e + lu.L(i, k) * lu.U(k, j); sym::eq(e, A(lu.permutation[i], j), "P A = L U"); sym::check(j < i ? lu.U(i, j) == 0 : j > i ? lu.L(i, j) == 0 : lu.L(i, j) == 1, "triangular factors"); } auto q = l.GetQR(); sym::check(q.valid, "QR valid"); eqM(q.Q * q.R, A, 3, 3, "A = Q R"); orth(q.Q, 3, "Q orthogonal"); auto s = l.GetSVD(); sym::check(s.valid && s.rank == 3, "SVD valid"); M D(3, 3, 0.0); for (int i = 0; i < 3; i++) D(i, i) = s.singularValues[i]; eqM(s.U * D * s.V.transpose(), A, 3, 3, "A = U W V^T"); double d = det3(A(0, 0), A(0, 1), A(0, 2), A(1, 0), A(1, 1), A(1, 2), A(2, 0), A(2, 1), A(2, 2)); sym::eq(l.Determinant(), d, "determinant"); sym::eq(lu.determinant, d, "LU determinant"); M I = l.Inverse(), PI = l.PseudoInverse(); eqM(A * I, M::Identity(3), 3, 3, "inverse"); eqM(PI, I, 3, 3, "pseudoinverse of a regular matrix"); sym::eq(l.ConditionNumber1(), Utils::OneNorm(A) * Utils::OneNorm(I), "condition in the 1-norm"); sym::eq(l.ConditionNumberInf(), Utils::InfinityNorm(A) * Utils::InfinityNorm(I), "condition in the maximum norm"); sym::eq(l.ConditionNumber(), s.singularValues[0] / s.singularValues[2], "condition number"); }
CASEN(pinv, 0, 16, 33) { static const double E[] = {8, 1e-20, 1e20}; double s = E[sym::pick(0, 2, "e")]; M A = svdpat(n, s), A1 = svdpat(n, 1); int m = A.rows(), c = A.cols(); double k = sym::real("k", 0.5, 2); sym::obs("k", k); LS l(A); M X = l.PseudoInverse() * s, AX = A1 * X, XA = X * A1; eqM(AX * A1 * k, A1 * k, m, c, "A X A = A"); eqM(XA * X * k, X * k, c, m, "X A X = X"); for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) sym::eq(AX(i, j) * k, AX(j, i) * k, "A X symmetric"); for (int i = 0; i < c; i++) for (int j = 0; j < i; j++) sym::eq(XA(i, j) * k, XA(j, i) * k, "X A symmetric"); }
CASE(verify) { M A = pat(2); V x = sVec("x", 3, -2, 2), b = rhs(3); sym::obs("x", x[0]); LS l(A, b); V r = A * x - b; double rr = 0, bb = 0, xx = 0; for (int i = 0; i < 3; i++) rr = rr + r[i] * r[i], bb = bb + b[i] * b[i], xx = xx + x[i] * x[i]; sym::assume((bb > 0.01) & (xx > 0.01)); double R = l.ResidualNorm(x), Q = l.RelativeResidual(x); sym::eq(R * R, rr, "residual"); sym::check(R >= 0, "norm"); sym::eq(Q * Q * bb, rr, "relative residual"); double tol = sym::real("tol", 0.01, 1); auto v = l.Verify(x, tol); sym::eq(v.absoluteResidual, R, "reported residual"); sym::eq(v.relativeResidual, Q, "reported relative residual"); sym::eq(v.estimatedForwardError, Q * l.ConditionNumber(), "forward error"); sym::eq(v.backwardError * v.backwardError * 64 * xx, rr, "backward error"); sym::check(v.isAccurate == (Q < tol), "accurate"); }
CASE(verifyzero) { V x = sVec("x", 2, -2, 2); M A = pat(0); LS l(A, V{0., 0.}); sym::obs("x", x[0]); V r = A * x; double rr = r[0] * r[0] + r[1] * r[1]; double R = l.RelativeResidual(x); sym::eq(R * R, rr, "absolute for a zero right-hand side"); }
CASE(pred2) { M A = sMat("a", 2, 2); sym::obs("a", A(0, 0)); double a = A(0, 0), b = A(0, 1), c = A(1, 0), d = A(1, 1), t = sym::real("t", 0, 4); auto ab = [](double x) { return x < 0 ? -x : x; }; LS l(A); sym::check(l.isSymmetric(t) == (ab(b - c) <= t), "symmetric within the tolerance"); sym::check(l.isSymmetric(0) == (b == c), "exactly symmetric after another query"); sym::check(l.isUpperTriangular(t) == (ab(c) <= t) && l.isLowerTriangular(t) == (ab(b) <= t) && l.isDiagonal(t) == ((ab(b) <= t) & (ab(c) <= t)), "triangular within the tolerance"); sym::check(l.isDiagonallyDominant() == ((ab(a) > ab(b)) & (ab(d) > ab(c))), "diagonally dominant"); int z = (ab(a) <= t) + (ab(b) <= t) + (ab(c) <= t) + (ab(d) <= t); sym::check(l.Sparsity(t) * 4 == z, "sparsity"); sym::check(l.isSquare() && !l.isOverdetermined() && !l.isUnderdetermined() && l.rows() == 2 && l.cols() == 2, "shape"); }
CASE(posdef2) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), d = sym::real("d", -4, 4), e = sym::real("e", -1, 1); sym::obs("a", a); M A(2, 2); A(0, 0) = a; A(0, 1) = b + e; A(1, 0) = b - e; A(1, 1) = d; double D = a * d - b * b; sym::assume((D > 0.01) | (D < -0.01)); LS l(A); sym::check(l.isPositiveDefinite(2.5) == ((a > 0) & (D > 0)), "definite by the symmetric part, within the tolerance"); double ee = e < 0 ? -e : e; sym::check(l.isPositiveDefinite(0.5) == ((a > 0) & (D > 0) & (2 * ee <= 0.5)), "the tolerance of the second query counts"); }
CASE(rankcache) { double t = sym::real("t", 0, 4); sym::obs("t", t); M A(2, 2, 0.0); A(0, 0) = 3; A(1, 1) = 1; LS l(A); auto e = [](double t) { return (3 > t) + (1 > t); }; sym::check(l.Rank(t) == e(t), "rank with a tolerance"); sym::check(l.Rank() == 2 && l.Nullity() == 0, "rank without one"); sym::check(l.Rank(2) == 1 && l.Nullity(2) == 1 && l.Nullity(t) == 2 - e(t), "rank with another tolerance"); }
CASE(multi) { M A = pat(2), B = sMat("B", 3, 2); sym::obs("B", B(0, 0)); LS l(A, B); M X = l.SolveMultiple(); eqM(A * X, B, 3, 2, "several right-hand sides"); sym::check(THROWS(std::runtime_error, l.Solve()) && THROWS(std::runtime_error, l.SolveByLU()) && THROWS(std::runtime_error, l.SolveBySVD()) && THROWS(std::runtime_error, l.ResidualNorm(V(3))), "single-vector operations refused"); M T(2, 2, 0.0); T(0, 0) = T(1, 1) = 1; sym::check(THROWS(std::runtime_error, LS(T, M(2, 1, 1.0)).Solve()), "triangular matrix, several right-hand sides"); LS s(pat(9), M(2, 1, 1.0)); sym::check(THROWS(SingularMatrixError, s.SolveMultiple()), "singular matrix refused"); sym::check(THROWS(std::runtime_error, LS(A, V(3)).SolveMultiple()), "no matrix given"); }
CASE(shapes) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"), k = sym::pick(1, 3, "k"); double a = sym::real("a", 1, 2); sym::obs("a", a); M A(r, c, a); V b(k, a); sym::check(THROWS(MatrixDimensionError, LS(A, b)) == (r != k) && THROWS(MatrixDimensionError, LS(A, M(k, 2, a))) == (r != k), "right-hand side of the wrong length"); LS l(A); bool ns = r != c; sym::check(THROWS(std::runtime_error, l.Solve()) && THROWS(std::runtime_error, l.GetRHS()) && THROWS(std::runtime_error, l.SolveByQR()) && THROWS(std::runtime_error, l.Verify(V(c))), "no right-hand side"); if (ns) sym::check(THROWS(MatrixDimensionError, l.Determinant()) && THROWS(MatrixDimensionError, l.Inverse()) && THROWS(MatrixDimensionError, LS(A, V(r, 1.0)).SolveByLU()) && THROWS(MatrixDimensionError, LS(A, V(r, 1.0)).SolveByGaussJordan()) && THROWS(MatrixDimensionError, LS(A, V(r, 1.0)).SolveByCholesky()) && THROWS(MatrixDimensionError, LS(A, V(r, 1.0)).SolveIterative()) && !l.isSymmetric() && !l.isPositiveDefinite() && !l.isDiagonallyDominant(), "square only"); sym::check(l.isOverdetermined() == (r > c) && l.isUnderdetermined() == (r < c) && l.isSquare() == !ns, "shape"); sym::eq(LS(A, V(r, a)).GetRHS()[0], a, "right-hand side"); sym::eq(l.GetMatrix()(0, 0), a, "matrix"); }
CASEN(analyze, 0, 16, 33) { double k = sym::real("k", 1, 2); sym::obs("k", k); M A = svdpat(n, 1); int m = A.rows(), c = A.cols(), rk = P[n % NP].rank; auto a = AnalyzeMatrix<Real>(A); LS l(A); sym::check(a.rows == m && a.cols == c && a.isSquare == (m == c) && a.isOverdetermined == (m > c) && a.isUnderdetermined == (m < c) && a.rank == rk && a.nullity == c - rk, "shape and rank"); sym::check(a.isSymmetric == l.isSymmetric() && a.isPositiveDefinite == l.isPositiveDefinite() && a.isDiagonallyDominant == l.isDiagonallyDominant() && a.isDiagonal == l.isDiagonal() && a.isUpperTriangular == l.isUpperTriangular() && a.isLowerTriangular == l.isLowerTriangular(), "structure"); sym::eq(a.determinant * k, (m == c ? Utils::Det(A) : 0) * k, "determinant"); sym::check(a.hasUniqueSolution == (rk == c && m >= c), "unique"); sym::check(a.hasInfiniteSolutions == (m < c || (m == c && rk < c)), "infinite"); sym::check(!(a.hasUniqueSolution && (a.hasInfiniteSolutions || a.hasNoSolution)), "exclusive"); double q = l.ConditionNumber(); sym::check(a.stability == l.AssessStability() && (a.stability == MatrixStability::Singular) == (q >= 1e12) && a.expectedDigitsLost == (int)std::log10(q), "stability"); sym::check((rk < (m < c ? c : c)) == (a.stability == MatrixStability::Singular), "singular exactly when rank-deficient"); }
CASEN(iterative, 0, 2, 2) { M A = pat(2); IterativeMethod m[] = {IterativeMethod::Auto, IterativeMethod::Jacobi, IterativeMethod::GaussSeidel}; V b = V{1., -2., 3.}; double k = sym::real("k", -1, 1); sym::obs("k", k); V x = LS(A, b).SolveIterative(m[n], 1e-10, 200); V r = A * x; for (int i = 0; i < 3; i++) sym::eq(r[i] * k, b[i] * k, "iterative solution"); sym::check(THROWS(ConvergenceError, LS(A, b).SolveIterative(m[n], 1e-10, 2)), "no convergence within the limit is an error"); }
CASE(sor) { M A = pat(2); A(0, 1) = A(1, 0) = 1; A(0, 2) = A(2, 0) = -1; A(1, 2) = A(2, 1) = 1; V b = V{1., -2., 3.}; double k = sym::real("k", -1, 1); sym::obs("k", k); V x = LS(A, b).SolveIterative(IterativeMethod::SOR, 1e-10, 300), r = A * x; for (int i = 0; i < 3; i++) sym::eq(r[i] * k, b[i] * k, "SOR solution"); }
