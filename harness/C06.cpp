// BOUNDS: determinants/inverses: fully symbolic 1x1..3x3 for the closed-form and Faddeev-Leverrier code, LU-based determinant on 1x1, 2x2 fully symbolic and structured 3x3/4x4; rank on outer-product families up to 3x3; predicates on rectangular shapes up to 3x3, entries in [-8,8]
// OUTSIDE: rounding; ranks of matrices whose pivots lie between 0 and 0.01
#include "la.h"
#include "mml/core/MatrixUtils.h"
template <int N> static Matrix<Real> toM(const MatrixNM<Real, N, N> &a) { Matrix<Real> m(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = a(i, j); return m; }
template <int N> static void nmdet() {
  auto A = sMatNM<N, N>("a"), B = sMatNM<N, N>("b"); double dA = Utils::Det(A); sym::eq(dA, detOf(toM(A)), "Det(MatrixNM) by definition"); sym::eq(Utils::Det(A * B), dA * Utils::Det(B), "det(AB) = det A det B"); MatrixNM<Real, N, N> T = A.transpose(); sym::eq(Utils::Det(T), dA, "det(A^T) = det A"); double s = sym::real("s"); sym::eq(Utils::Det(A * s), dA * std::pow(s, N), "det(sA)");
}
CASE(nmdet1) { nmdet<1>(); } CASE(nmdet2) { nmdet<2>(); } CASE(nmdet3) { nmdet<3>(); }
CASE(nmdet4) { Matrix<Real> M = fam(4); MatrixNM<Real, 4, 4> A; for (int i = 0; i < 16; i++) A(i / 4, i % 4) = M(i / 4, i % 4); sym::eq(Utils::Det(A), detOf(M), "4x4 determinant", 1e-6); }
CASEN(ludet, 1, 3, 4) { Matrix<Real> A = fam(n), K = A; sym::eq(Utils::Det(A), detOf(K), "LU determinant (singular or not)", 1e-6); }
CASEN(ludetp, 10, 15, 21) { Matrix<Real> A = fam(n); sym::eq(Utils::Det(A), detOf(A), "LU determinant 3x3", 1e-6); sym::obs("d", Utils::Det(A)); }
CASEN(inv, 1, 3, 4) { Matrix<Real> A = famq(n); int N = A.rows(); double d = detOf(A); sym::assume(d > 0.05 || d < -0.05); Matrix<Real> K = A, I = A.inverse(); eqM(K * I, Matrix<Real>::Identity(N), N, N, "A * inverse(A) = I"); eqM(A, K, N, N, "inverse() leaves A"); K.Invert(); eqM(K, I, N, N, "Invert() = inverse()"); }
CASEN(invp, 10, 15, 21) { Matrix<Real> A = fam(n); double d = detOf(A); sym::assume(d > 0.05 || d < -0.05); eqM(A * A.inverse(), Matrix<Real>::Identity(3), 3, 3, "A * inverse(A) = I"); }
CASE(nminv2) { Matrix<Real> M = famq(2); MatrixNM<Real, 2, 2> A; for (int i = 0; i < 4; i++) A(i / 2, i % 2) = M(i / 2, i % 2); double d = detOf(M); sym::assume(d > 0.05 || d < -0.05); auto I = A.GetInverse(); eqM(A * I, MatrixNM<Real, 2, 2>::Identity(), 2, 2, "MatrixNM inverse"); auto K = A; K.Invert(); eqM(K, I, 2, 2, "Invert in place"); }
CASEN(nminv3, 10, 15, 21) { Matrix<Real> M = fam(n); MatrixNM<Real, 3, 3> A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = M(i / 3, i % 3); double d = detOf(M); sym::assume(d > 0.05 || d < -0.05); eqM(A * A.GetInverse(), MatrixNM<Real, 3, 3>::Identity(), 3, 3, "MatrixNM 3x3 inverse"); }
CASEN(faddeev, 1, 3, 4) { // Cayley-Hamilton, determinant and inverse from the characteristic polynomial
  Matrix<Real> A = n < 4 ? sMat("a", n, n) : fam(4); PolynomRealFunc p; Real d; Matrix<Real> inv; double dd = detOf(A); sym::assume(dd > 0.05 || dd < -0.05); Utils::FaddeevAlg(A, p, d, inv); sym::check(p.degree() == n, "characteristic polynomial degree"); sym::eq(p[n], 1, "monic"); sym::eq(d, dd, "determinant from the characteristic polynomial"); double tr = 0; for (int i = 0; i < n; i++) tr += A(i, i); sym::eq(p[n - 1], -tr, "trace coefficient"); sym::eq(p[0], (n % 2 ? -1 : 1) * dd, "constant coefficient");
  Matrix<Real> S = Matrix<Real>::Identity(n) * p[n]; for (int k = n - 1; k >= 0; k--) S = S * A + Matrix<Real>::Identity(n) * p[k]; eqM(S, Matrix<Real>(n, n, 0.0), n, n, "p(A) = 0 (Cayley-Hamilton)"); if (n < 3) eqM(A * inv, Matrix<Real>::Identity(n), n, n, "inverse from the recurrence"); sym::obs("d", d); }
CASEN(faddinv, 10, 15, 21) { Matrix<Real> A = fam(n); PolynomRealFunc p; Real d; Matrix<Real> inv; double dd = detOf(A); sym::assume(dd > 0.05 || dd < -0.05); Utils::FaddeevAlg(A, p, d, inv); eqM(A * inv, Matrix<Real>::Identity(3), 3, 3, "inverse from the recurrence"); sym::obs("i", inv(1, 0)); }
static bool far0(double x, double lo = 0.01) { return x > lo || x < -lo; }
CASE(rank2) { Matrix<Real> A = sMat("a", 2, 2); double d = detOf(A); bool z = true; for (int i = 0; i < 4; i++) if (A(i / 2, i % 2) != 0) z = false; if (d == 0) { if (!z) { bool big = false; for (int i = 0; i < 4; i++) if (far0(A(i / 2, i % 2))) big = true; sym::assume(big); } } else sym::assume(far0(d)); sym::check(Utils::RankGaussian(A) == (d != 0 ? 2 : z ? 0 : 1), "rank by definition"); }
CASE(rankouter) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"); Matrix<Real> A(r, c); double u[3] = {2, -1, 3}, v[3] = {1, 4, -2}; int z = sym::pick(0, 2, "z"), w = sym::pick(0, 2, "w"); u[z] = sym::real("u", -4, 4); v[w] = sym::real("v", -4, 4); sym::assume(u[z] == 0 || far0(u[z], 0.1)); sym::assume(v[w] == 0 || far0(v[w], 0.1)); bool nz = false; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { A(i, j) = u[i] * v[j]; if (A(i, j) != 0) nz = true; } sym::check(Utils::RankGaussian(A) == (nz ? 1 : 0), "rank of an outer product"); }
CASE(rank3) { double s = sym::real("s", -4, 4), t = sym::real("t", -4, 4); int k = sym::pick(0, 2, "k"); Matrix<Real> A(3, 3); double a[3] = {1, 2, -1}, b[3] = {0, 1, 3}; int ri[3][3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}}; for (int j = 0; j < 3; j++) { A(ri[k][0], j) = a[j]; A(ri[k][1], j) = b[j]; A(ri[k][2], j) = s * a[j] + t * b[j]; } sym::check(Utils::RankGaussian(A) == 2, "rank of a dependent row set"); sym::check(Utils::RankGaussian(A.transpose()) == 2, "rank of the transpose"); double e = sym::real("e", -4, 4); sym::assume(far0(e, 0.1)); A(ri[k][2], 2) += e; sym::check(Utils::RankGaussian(A) == 3, "rank after breaking the dependence"); Matrix<Real> W(3, 5, 0.0); for (int i = 0; i < 3; i++) W(i, i + 1) = i == 1 ? e : 1; sym::check(Utils::RankGaussian(W) == 3 && Utils::RankGaussian(W.transpose()) == 3, "rank of a wide matrix"); }
CASE(preds) { // definitions on every shape
  int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"), bi = sym::pick(0, r - 1, "bi"), bj = sym::pick(0, c - 1, "bj"); Matrix<Real> A(r, c, 0.0); A(bi, bj) = sym::real("a", -4, 4); bool z = A(bi, bj) == 0; sym::assume(z || far0(A(bi, bj))); sym::check(Utils::IsUpperTriangular(A) == (z || bi <= bj), "upper triangular"); sym::check(Utils::IsLowerTriangular(A) == (z || bi >= bj), "lower triangular"); sym::check(Utils::IsDiagonal(A) == (z || bi == bj), "diagonal"); sym::check(Utils::IsUpperHessenberg(A) == (z || bi <= bj + 1), "Hessenberg"); sym::check(Utils::IsSymmetric(A) == (r == c && (z || bi == bj)), "symmetric"); sym::check(Utils::IsSkewSymmetric(A) == (r == c && z), "skew"); }
CASE(norms) { int r = sym::pick(1, sym::deep() ? 3 : 2, "r"), c = sym::pick(1, 2, "c"); Matrix<Real> A = sMat("a", r, c); double f = 0, o = 0, inf = 0; auto ab = [](double x) { return x < 0 ? -x : x; }; if (r * c > 3) sym::assume(A(0, 0) >= 0); for (int i = 0; i < r; i++) { double s = 0; for (int j = 0; j < c; j++) { f += A(i, j) * A(i, j); s += ab(A(i, j)); } if (s > inf) inf = s; } for (int j = 0; j < c; j++) { double s = 0; for (int i = 0; i < r; i++) s += ab(A(i, j)); if (s > o) o = s; } double F = Utils::FrobeniusNorm(A); sym::check(F >= 0, "norm nonnegative"); sym::eq(F * F, f, "Frobenius norm"); sym::obs("F", F); sym::eq(Utils::InfinityNorm(A), inf, "infinity norm"); sym::eq(Utils::OneNorm(A), o, "one norm"); }
CASE(maxdiff) { int r = sym::pick(1, 2, "r"), c = sym::pick(1, 2, "c"), r2 = sym::pick(1, 2, "r2"); Matrix<Real> A = sMat("a", r, c), B(r2, c, 0.5); double mx = 0; for (int i = 0; i < r && i < r2; i++) for (int j = 0; j < c; j++) { double d = A(i, j) - B(i, j); if (d < 0) d = -d; if (d > mx) mx = d; } sym::eq(Utils::MaxAbsDiff(A, B), mx, "max difference"); sym::eq(Utils::MaxAbsDiff(B, A), mx, "max difference symmetric"); }
CASE(simtr) { Matrix<Real> Q = sMat("q", 3, 3), A = sMat("a", 3, 3); eqM(Utils::SimilarityTransform(Q, A), Q.transpose() * A * Q, 3, 3, "Q^T A Q"); sym::eq(Utils::Trace(A * Q), Utils::Trace(Q * A), "tr(AQ) = tr(QA)"); }
CASEN(nilp, 1, 3, 4) { Matrix<Real> A(n, n, 0.0); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) A(i, j) = sym::real("a", i * 4 + j, -4, 4); sym::check(Utils::IsNilpotent(A), "strictly upper triangular is nilpotent"); sym::check(Utils::IsUnipotent(A + Matrix<Real>::Identity(n)), "I + N is unipotent"); Matrix<Real> L = A.transpose(); sym::check(Utils::IsNilpotent(L), "strictly lower triangular is nilpotent"); double d = sym::real("d", 0.1, 4); A(n - 1, n - 1) = d; sym::check(!Utils::IsNilpotent(A), "non-zero eigenvalue: not nilpotent"); sym::check(!Utils::IsUnipotent(A + Matrix<Real>::Identity(n)), "eigenvalue other than 1: not unipotent"); Matrix<Real> R(n, n + 1, 0.0); sym::check(THROWS(MatrixDimensionError, Utils::IsNilpotent(R)) && THROWS(MatrixDimensionError, Utils::IsUnipotent(R)), "square only"); }
CASE(nil2) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); sym::assume(a > 0.5); Matrix<Real> A(2, 2); A(0, 0) = b; A(0, 1) = a; A(1, 0) = -b * b / a; A(1, 1) = -b; sym::check(Utils::IsNilpotent(A), "2x2 nilpotent family"); }
