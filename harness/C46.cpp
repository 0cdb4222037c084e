// BOUNDS: 13 symmetric patterns 1x1 to 5x5 (repeated, zero, negative eigenvalues) beside an eigenvalue e that takes every value in [-9,9], and A x = V L V^T x for every x; all symmetric 2x2 matrices with a concrete off-diagonal element; 22 general patterns up to 6x6 (defective, block, permutation, several complex pairs) beside and coupled to every e in [12,14]; every iteration limit up to 3; QR and Francis steps on 7 patterns with a symbolic row above and a symbolic column behind; quasi-triangular Schur forms with two symbolic entries
// OUTSIDE: rounding growth on ill-conditioned eigenvectors; iteration counts; maxResidual of complex pairs (documented as skipped); convergence of matrices outside the patterns
#include "h.h"
#include "mml/algorithms/EigenSystemSolvers.h"
typedef Matrix<Real> M; typedef Vector<Real> V; typedef EigenSolverHelpers EH; typedef SymmMatEigenSolverJacobi J; typedef SymmMatEigenSolverQR Q;
struct Pat { int n; double a[36]; };
static const Pat SP[] = {{1, {-3}}, {2, {2, 1, 1, 2}}, {2, {3, -4, -4, -3}}, {2, {0, 0, 0, 0}}, {3, {2, -1, 0, -1, 2, -1, 0, -1, 2}}, {3, {5, 0, 0, 0, 3, 0, 0, 0, 1}}, {3, {1, 1, 1, 1, 1, 1, 1, 1, 1}}, {3, {4, 1, -1, 1, 5, 2, -1, 2, 6}}, {4, {0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0}}, {4, {1, 2, 0, 0, 2, 1, 0, 0, 0, 0, 3, -1, 0, 0, -1, 3}}, {4, {4, 1, 2, -1, 1, -3, 0, 2, 2, 0, 5, 1, -1, 2, 1, 0}}, {3, {0, 0, 3, 0, 1, 0, 3, 0, 0}}, {5, {2, 1, 0, 0, 0, 1, 2, 1, 0, 0, 0, 1, 2, 1, 0, 0, 0, 1, 2, 1, 0, 0, 0, 1, 2}}};
static const int NS = 13;
static M spat(int k) { int n = SP[k].n; M A(n, n); for (int i = 0; i < n * n; i++) A(i / n, i % n) = SP[k].a[i]; return A; }
static MatrixSym<Real> tosym(const M &A) { int n = A.rows(); MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) S(i, j) = A(i, j); return S; }
static void orth(const M &X, const char *l) { int n = X.rows(); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double d = 0; for (int r = 0; r < n; r++) d = d + X(r, i) * X(r, j); sym::eq(d, i == j ? 1 : 0, l); } }
template <class R> static void symchecks(const M &A, const R &r, double tol) {
  int n = A.rows(); sym::check(r.converged, "converged"); sym::check(r.residual <= tol * 100, "residual below the tolerance"); sym::check(r.eigenvalues.size() == n && r.eigenvectors.rows() == n && r.eigenvectors.cols() == n, "sizes"); double t = 0, u = 0;
  for (int i = 0; i < n; i++) { t = t + A(i, i); u = u + r.eigenvalues[i]; if (i) sym::check(r.eigenvalues[i - 1] <= r.eigenvalues[i], "ascending"); for (int q = 0; q < n; q++) { double x = 0; for (int k = 0; k < n; k++) x = x + A(q, k) * r.eigenvectors(k, i); sym::eq(x, r.eigenvalues[i] * r.eigenvectors(q, i), "A v = lambda v"); } }
  sym::eq(t, u, "trace"); orth(r.eigenvectors, "eigenvectors orthonormal"); }
static M shifted(const M &A, double c, double s = 1) { int n = A.rows(); M B(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = i == j ? A(i, j) * s + c : A(i, j) * s; return B; }

// a symbolic eigenvalue e beside a concrete matrix: [[A,0],[0,e]] with the extra row first or last
static M beside(const M &A, double e, bool first) { int n = A.rows(); M B(n + 1, n + 1, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i + first, j + first) = A(i, j); B(first ? 0 : n, first ? 0 : n) = e; return B; }
// A x = V L V' x for every vector x
template <class R> static void everyx(const M &A, const R &r) { int n = A.rows(); V x = sVec("x", n, -1, 1), y(n), z(n); for (int i = 0; i < n; i++) { y[i] = 0; for (int k = 0; k < n; k++) y[i] = y[i] + r.eigenvectors(k, i) * x[k]; y[i] = y[i] * r.eigenvalues[i]; } for (int i = 0; i < n; i++) { z[i] = 0; for (int k = 0; k < n; k++) z[i] = z[i] + r.eigenvectors(i, k) * y[k]; } eqV(A * x, z, n, "A x = V L V' x"); }
static double esym() { double e = sym::real("e", -9, 9); sym::obs("e", e); return e; }
CASEN(jacobi, 0, NS - 1, NS - 1) { int w = sym::pick(0, 1, "first"); M A = beside(spat(n), esym(), w); auto r = w ? J::Solve(A) : J::Solve(tosym(A)); symchecks(A, r, 1e-10); everyx(spat(n), J::Solve(spat(n))); }
CASEN(symqr, 0, NS - 1, NS - 1) { int w = sym::pick(0, 1, "first"); M A = beside(spat(n), esym(), w); auto r = w ? Q::Solve(A) : Q::Solve(tosym(A)); symchecks(A, r, 1e-10); everyx(spat(n), Q::Solve(spat(n))); }
CASEN(config, 0, NS - 1, NS - 1) { M A = beside(spat(n), esym(), false); EigenSolverConfig g; int k = sym::pick(0, 3, "cfg"); if (k == 1) g = EigenSolverConfig::Fast(); if (k == 2) g.max_iterations = 0; if (k == 3) { g = EigenSolverConfig::HighPrecision(); g.tolerance = 1e-13; } auto r = J::Solve(A, g); sym::check(r.converged && r.residual <= g.tolerance && r.status == AlgorithmStatus::Success && r.error_message.empty(), "Jacobi status"); auto q = Q::Solve(A, g); sym::check(q.converged && q.status == AlgorithmStatus::Success && q.error_message.empty(), "QR status"); auto e = EigenSolver::Solve(A, g); sym::check(e.converged && e.status == AlgorithmStatus::Success && (int)e.eigenvalues.size() == A.rows(), "general status"); }
// whatever the iteration limit and the tolerance, the result is an orthogonal similarity, the residual is what is left off the diagonal, and converged means the residual is below the tolerance
CASE(giveup) { M A = beside(spat(10), 20, false); int it = sym::pick(0, 3, "limit"); double tol = sym::real("tol", 1e-12, 10); sym::obs("tol", tol); auto r = J::Solve(A, tol, it); orth(r.eigenvectors, "rotations stay orthonormal"); double off = 0, diag = 0; M D = r.eigenvectors.transpose() * A * r.eigenvectors; for (int i = 0; i < 5; i++) { sym::eq(D(i, i), r.eigenvalues[i], "diagonal of the rotated matrix"); for (int j = 0; j < i; j++) off = off + D(i, j) * D(i, j); } sym::eq(r.residual * r.residual, off, "residual"); sym::check(r.converged == (r.residual <= tol) && r.iterations <= it && (r.converged || r.iterations == it), "converged when the residual is below the tolerance"); }
CASEN(stop, 0, NS - 1, NS - 1) { double c = sym::real("c", -2, 2); sym::obs("c", c); M A = beside(spat(n), c, sym::flag("first")); int N = A.rows(); int it = sym::pick(0, 2, "limit"); auto q = Q::Solve(A, 1e-12, it); orth(q.eigenvectors, "reflections stay orthonormal"); M D = q.eigenvectors.transpose() * A * q.eigenvectors; double off = 0; for (int i = 0; i < N; i++) { sym::eq(D(i, i), q.eigenvalues[i], "diagonal of the transformed matrix"); for (int j = 0; j < i; j++) off = off + D(i, j) * D(i, j); } sym::eq(q.residual * q.residual, off, "residual"); sym::check(!q.converged || q.residual < 1e-9, "converged means small"); sym::check(q.iterations <= it && (q.converged || q.iterations == it), "iterations"); EigenSolverConfig g; g.max_iterations = 1; g.tolerance = 1e-12; auto z = Q::Solve(A, g); sym::check(z.converged ? z.status == AlgorithmStatus::Success : (z.status == AlgorithmStatus::MaxIterationsExceeded && !z.error_message.empty()), "QR gives up honestly"); if (n == 10) { auto e = EigenSolver::Solve(spat(10), g); sym::check(!e.converged && e.status == AlgorithmStatus::MaxIterationsExceeded && !e.error_message.empty(), "general gives up honestly"); auto f = J::Solve(spat(10), g); sym::check(!f.converged && f.status == AlgorithmStatus::MaxIterationsExceeded && !f.error_message.empty(), "Jacobi gives up honestly"); } }
CASEN(tridiag, 0, 3, 3) { static const double P[4][9] = {{2, 0, 1, 0, 3, -1, 1, -1, 4}, {1, 2, -2, 2, 0, 1, -2, 1, 3}, {0, 0, 2, 0, 1, 5, 2, 5, -1}, {0, -3, 4, -3, 2, 0, 4, 0, 1}}; double c = sym::real("c", -2, 2); sym::obs("c", c); M A(3, 3); for (int i = 0; i < 9; i++) A(i / 3, i % 3) = P[n][i]; for (int i = 0; i < 3; i++) A(i, i) = A(i, i) + c; A(1, 1) = A(1, 1) + sym::real("d", -2, 2); auto q = Q::Solve(A, 1e-12, 0); orth(q.eigenvectors, "reflections orthonormal"); M D = q.eigenvectors.transpose() * A * q.eigenvectors; double off = 0; for (int i = 0; i < 3; i++) { sym::eq(D(i, i), q.eigenvalues[i], "diagonal of the tridiagonal form"); for (int j = 0; j < i; j++) off = off + D(i, j) * D(i, j); } sym::eq(q.residual * q.residual, off, "residual"); }
CASEN(rot2, 0, 1, 3) { static const double D[4] = {1, -0.5, 3, 2}; double a = sym::real("a", -3, 3), d = sym::real("d", -3, 3); sym::obs("a", a); M A(2, 2); A(0, 0) = a; A(0, 1) = A(1, 0) = D[n]; A(1, 1) = d; auto r = J::Solve(A, 1e-10, 5); sym::check(r.iterations == 1, "one rotation"); symchecks(A, r, 1e-10); }
CASE(shapes) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"); double a = sym::real("a", 1, 2); sym::obs("a", a); M A(r, c, a); EigenSolverConfig g; bool b = r != c; sym::check(THROWS(MatrixDimensionError, J::Solve(A)) == b && THROWS(MatrixDimensionError, J::Solve(A, g)) == b && THROWS(MatrixDimensionError, Q::Solve(A)) == b && THROWS(MatrixDimensionError, Q::Solve(A, g)) == b && THROWS(MatrixDimensionError, EigenSolver::Solve(A)) == b && THROWS(MatrixDimensionError, EigenSolver::Solve(A, g)) == b, "square matrices only"); }
CASE(jacobi2) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); sym::obs("a", a); M A(2, 2, 0.0); A(0, 0) = a; A(1, 1) = b; auto r = J::Solve(A); auto q = Q::Solve(A); sym::check(r.converged && q.converged, "diagonal"); double lo = a < b ? a : b, hi = a < b ? b : a; sym::check(r.eigenvalues[0] == lo && r.eigenvalues[1] == hi && q.eigenvalues[0] == lo && q.eigenvalues[1] == hi, "sorted diagonal"); double v = a < b ? r.eigenvectors(0, 0) : r.eigenvectors(1, 0), w = a < b ? q.eigenvectors(0, 0) : q.eigenvectors(1, 0); sym::check((v == 1) & (w == 1) || a == b, "vectors follow the values"); auto e = EigenSolver::Solve(A); sym::check(e.converged && e.eigenvalues[0].imag == 0 && ((e.eigenvalues[0].real == lo) & (e.eigenvalues[1].real == hi) | (e.eigenvalues[0].real == hi) & (e.eigenvalues[1].real == lo)), "general"); }
// building blocks
CASE(eig2) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), c = sym::real("c", -4, 4), d = sym::real("d", -4, 4); sym::obs("a", a); auto e = EH::Eigenvalues2x2(a, b, c, d); double D = a * d - b * c, disc = (a - d) * (a - d) + 4 * b * c; sym::check(e.isComplex == (disc < 0), "complex when the discriminant is negative"); sym::eq(e.real1 + e.real2, a + d, "trace"); if (e.isComplex) { sym::check((e.imag1 > 0) & (e.imag2 == -e.imag1) & (e.real1 == e.real2), "conjugate pair"); sym::eq(e.real1 * e.real1 + e.imag1 * e.imag1, D, "determinant"); } else { sym::check((e.imag1 == 0) & (e.imag2 == 0) & (e.real1 >= e.real2), "real pair, larger first"); sym::eq(e.real1 * e.real2, D, "determinant"); } }
CASE(wilk) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), c = sym::real("c", -4, 4), d = sym::real("d", -4, 4); sym::obs("a", a); double s = EH::WilkinsonShift(a, b, c, d), disc = (a - d) * (a - d) + 4 * b * c; if (disc >= 0) { sym::eq((a - s) * (d - s), b * c, "shift is an eigenvalue"); double o = a + d - s; sym::check((s - d) * (s - d) <= (o - d) * (o - d) + 1e-9, "the one closer to the last diagonal element"); } else sym::eq(s * 2, a + d, "real part of the pair"); }
static const Pat GP[] = {{1, {-3}}, {2, {1, 2, 3, 4}}, {2, {0, -1, 1, 0}}, {2, {1, 1, 0, 1}}, {3, {0, 0, 1, 1, 0, 0, 0, 1, 0}}, {3, {0, 1, 0, 0, 0, 1, 6, -11, 6}}, {3, {2, 1, 3, 0, 1, -2, 0, 2, 1}}, {3, {1, -2, 1, 2, 1, 3, 0, 0, 4}}, {3, {4, 1, -1, 2, 5, 1, 1, -1, 6}}, {3, {2, 1, 0, 0, 2, 1, 0, 0, 2}}, {4, {0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0}}, {4, {1, -2, 1, 2, 2, 1, 3, 0, 0, 0, 3, -1, 0, 0, 4, 3}}, {4, {1, 2, 0, 0, 3, 4, 0, 0, 0, 0, 2, 1, 0, 0, 1, 5}}, {5, {1, 2, 0, 0, 0, 3, 4, 0, 0, 0, 0, 0, 4, 1, -1, 0, 0, 2, 5, 1, 0, 0, 1, -1, 6}}, {5, {0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 2, -1, 3, 0, 1}}, {6, {1, -1, 2, 0, 1, 3, 1, 1, 0, 1, 2, 0, 0, 0, 5, 1, 0, 1, 0, 0, 0, 2, -3, 1, 0, 0, 0, 3, 2, 0, 0, 0, 0, 0, 0, 7}}, {4, {4, 1, 2, -1, 3, -3, 0, 2, 2, 1, 5, 1, -1, 2, 0, 0}}, {3, {0, 0, 0, 0, 0, 0, 0, 0, 0}}, {4, {1, 0, 0, 0, 0, 2, -3, 0, 0, 3, 2, 0, 0, 0, 0, -1}}, {5, {2, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 3, 0, 1, 0, 0, 0, 2}}, {4, {-0.292, -0.0147, 0.827, 0.532, 0.947, -0.195, 0.106, -0.387, 0.173, -0.45, -0.0908, 0.515, 0.635, -0.485, 0.786, 0.437}}, {5, {0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0}}};
static const int NG = 22;
static const bool DEF[NG] = {0, 0, 0, 1, 0, 0, 0, 0, 0, 1};
static M gpat(int k) { int n = GP[k].n; M A(n, n); for (int i = 0; i < n * n; i++) A(i / n, i % n) = GP[k].a[i]; return A; }
static void similar(const M &A, const M &Qm, const M &H) { orth(Qm, "Q orthogonal"); M L = A * Qm, R = Qm * H; eqM(L, R, A.rows(), A.rows(), "A Q = Q H"); for (int i = 0; i < H.rows(); i++) for (int j = 0; j < i - 1; j++) sym::eq(H(i, j), 0, "Hessenberg"); }
CASEN(hess, 1, NG - 1, NG - 1) { double c = sym::real("c", -2, 2), s = n < 16 ? sym::real("s", 0.5, 2) : 1; sym::obs("c", c); M A = shifted(gpat(n), c); auto h = EH::ReduceToHessenberg(A); similar(A, h.Q, h.H); M B = shifted(gpat(n), 0, s); auto k = EH::ReduceToHessenberg(B); similar(B, k.Q, k.H); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < i - 1; j++) sym::check(h.H(i, j) == 0 && k.H(i, j) == 0, "exact zeros"); }
static const int HK[] = {5, 6, 7, 10, 14, 8, 16};
CASEN(qrstep, 0, 5, 6) { double c = sym::real("c", -2, 2); sym::obs("c", c); M H = shifted(EH::ReduceToHessenberg(gpat(HK[n])).H, c); auto r = EH::SingleQRStep(H); similar(H, r.Q, r.H); auto q = EH::SingleQRStep(H, false); eqM(q.H, r.H, H.rows(), H.rows(), "the same without the transformation"); }
CASEN(qrshift, 0, 1, 2) { double c = sym::real("c", -2, 2); sym::obs("c", c); static const double P[3][4] = {{1, 2, 3, 4}, {0, -1, 1, 0}, {2, 1, 1, -1}}; M H(2, 2); for (int i = 0; i < 4; i++) H(i / 2, i % 2) = P[n][i]; auto r = EH::SingleQRStep(H, true, &c); sym::check(r.shift == c, "shift reported"); similar(H, r.Q, r.H); }
// an active block in the middle: symbolic first row, symbolic last column
static M framed(const M &H) { int n = H.rows(); M B(n + 2, n + 2, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i + 1, j + 1) = H(i, j); for (int i = 0; i <= n + 1; i++) B(i, n + 1) = sym::real("v", -2, 2), B(0, i) = sym::real("w", -2, 2); return B; }
CASEN(francis, 0, 6, 6) { M H = framed(EH::ReduceToHessenberg(gpat(HK[n])).H); sym::obs("v", H(0, 0)); int N = H.rows(), lo = 1, hi = N - 2; if (N >= 6 && sym::flag("shorter")) { H(hi, hi - 1) = 0; hi--; } auto r = EH::FrancisDoubleShift(H, lo, hi); similar(H, r.Q, r.H); for (int i = 0; i < N; i++) for (int j = 0; j < i - 1; j++) sym::check(r.H(i, j) == 0, "exactly Hessenberg"); sym::check(r.H(1, 0) == 0 && r.H(hi + 1, hi) == 0, "still decoupled"); sym::eq(r.sigma1_real + r.sigma2_real, H(hi, hi) + H(hi - 1, hi - 1), "shifts are the eigenvalues of the trailing block"); auto q = EH::FrancisDoubleShift(H, lo, hi, false); eqM(q.H, r.H, N, N, "the same without the transformation"); }
CASEN(qrframed, 0, 6, 6) { M H = framed(EH::ReduceToHessenberg(gpat(HK[n])).H); sym::obs("v", H(0, 0)); int N = H.rows(); double sh = 0.625; auto r = EH::SingleQRStep(H, true, &sh); similar(H, r.Q, r.H); for (int i = 0; i < N; i++) for (int j = 0; j < i - 1; j++) sym::check(r.H(i, j) == 0, "exactly Hessenberg"); sym::check(r.H(1, 0) == 0 && r.H(N - 1, N - 2) == 0, "still decoupled"); }
CASEN(split, 0, 3, 3) { static const double D[4][4] = {{1, 2, 3, 4}, {2, -1, 0.5, -3}, {1, 1, 1e-9, 1}, {0, -1, 1, 0}}; M A(2, 2); for (int i = 0; i < 4; i++) A(i / 2, i % 2) = D[n][i]; M H = framed(A), T = H, X = M::Identity(4); sym::obs("v", H(0, 0)); EH::SplitReal2x2Block(T, X, 1); similar(H, X, T); sym::check((T(2, 1) == 0) == (n < 3), "split unless the pair is complex"); sym::check(T(1, 0) == 0 && T(3, 2) == 0 && T(3, 1) == 0, "decoupled"); }
CASE(deflate) { M H(4, 4, 0.0); double t = sym::real("tol", 1e-4, 0.1); for (int i = 0; i < 4; i++) H(i, i) = i - 1.5; double e[3]; for (int i = 0; i < 3; i++) e[i] = H(i + 1, i) = sym::real("e", i, -0.5, 0.5); int lo = sym::pick(0, 1, "lo"), hi = sym::pick(2, 3, "hi"); sym::obs("t", t); auto d = EH::CheckDeflation(H, lo, hi, t); int w = -1; for (int k = lo + 1; k <= hi; k++) { double g = std::fabs(H(k, k)) + std::fabs(H(k - 1, k - 1)); if (g < 1) g = 1; double a = std::fabs(e[k - 1]); if (a < t * g) w = k; } sym::check(d.canDeflate == (w >= 0) && (w < 0 || d.deflationIndex == w), "the last negligible element"); M G = H; EH::ApplyDeflation(G, w < 0 ? 0 : w); for (int i = 1; i < 4; i++) sym::check(G(i, i - 1) == (i == w ? 0 : H(i, i - 1)), "one element cleared"); }
CASE(extract) { M H(4, 4, 0.0); double a = sym::real("a", -2, 2), b = sym::real("b", 0.5, 2), c = sym::real("c", -2, -0.5), k = sym::real("k", -2, 2); int at = sym::pick(0, 2, "at"); for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) H(i, j) = i == j ? a + (i == at + 1 ? 0 : i == at ? 0 : i + 3) : k; H(at, at + 1) = b; H(at + 1, at) = c; sym::obs("a", a); auto r = EH::ExtractEigenvalues(H); sym::check(r.eigenvalues.size() == 4 && r.realCount == 2 && r.complexPairs == 1, "counts"); for (int i = 0; i < 4; i++) { auto &e = r.eigenvalues[i]; if (i == at || i == at + 1) { sym::eq(e.real, a, "real part"); sym::eq(e.imag * e.imag, -b * c, "imaginary part"); sym::check(e.isComplex && (e.imag > 0) == (i == at), "sign"); } else { sym::check(e.imag == 0 && !e.isComplex, "real"); sym::eq(e.real, H(i, i), "diagonal"); } } }
// eigenvectors of Schur forms: every column satisfies T v = lambda v
static void pairs(const M &A, const M &X, const std::vector<bool> &cp, const std::vector<std::pair<double, double>> &ev, const char *l) { int n = A.rows(); for (int i = 0; i < n; i++) { double nn = 0; if (cp[i]) { for (int q = 0; q < n; q++) { double x = 0, y = 0; for (int k = 0; k < n; k++) x = x + A(q, k) * X(k, i), y = y + A(q, k) * X(k, i + 1); sym::eq(x, ev[i].first * X(q, i) - ev[i].second * X(q, i + 1), l); sym::eq(y, ev[i].first * X(q, i + 1) + ev[i].second * X(q, i), l); nn = nn + X(q, i) * X(q, i) + X(q, i + 1) * X(q, i + 1); } sym::check(ev[i].second > 0 && ev[i + 1].second == -ev[i].second && ev[i + 1].first == ev[i].first, "conjugate pair in consecutive places"); i++; } else { sym::check(ev[i].second == 0, "a real eigenvalue for a real vector"); for (int q = 0; q < n; q++) { double x = 0; for (int k = 0; k < n; k++) x = x + A(q, k) * X(k, i); sym::eq(x, ev[i].first * X(q, i), l); nn = nn + X(q, i) * X(q, i); } } sym::eq(nn, 1, "unit length"); } }
CASEN(schur, 0, 5, 5) { static const Pat T[] = {{3, {1, 2, 3, 0, 4, 1, 0, 0, -2}}, {3, {1, 2, 3, 0, 4, 1, 0, -2, 4}}, {3, {1, 2, 3, -3, 1, 1, 0, 0, -2}}, {4, {1, 2, 3, 1, -3, 1, 1, 2, 0, 0, -2, 1, 0, 0, -4, -2}}, {4, {2, 2, 3, 1, 0, 1, 1, 2, 0, -3, 1, 1, 0, 0, 0, -2}}, {5, {3, 1, 2, -1, 1, 0, 1, 2, 3, 1, 0, -3, 1, 1, 2, 0, 0, 0, -2, 1, 0, 0, 0, -4, -2}}}; int N = T[n].n; double c = sym::real("c", -2, 2), k = sym::real("k", -2, 2); sym::obs("c", c); M A(N, N); for (int i = 0; i < N * N; i++) A(i / N, i % N) = T[n].a[i]; for (int i = 0; i < N; i++) A(i, i) = A(i, i) + c; if (N == 3) A(0, n == 2 ? 2 : 1) = k; auto e = EH::ExtractEigenvalues(A); std::vector<std::pair<double, double>> ev; for (auto &x : e.eigenvalues) ev.push_back({x.real, x.imag}); M I = M::Identity(N); auto r = EH::ComputeEigenvectorsFromSchur(A, I); pairs(A, r.vectors, r.isComplexPair, ev, "T v = lambda v"); M P(N, N, 0.0); for (int i = 0; i < N; i++) P((i + 1) % N, i) = i == 1 ? -1 : 1; auto s = EH::ComputeEigenvectorsFromSchur(A, P); M B = P * A * P.transpose(); pairs(B, s.vectors, s.isComplexPair, ev, "Q T Q' v = lambda v"); }
static void general(const M &A, const EigenSolver::Result &r, bool defective = false) { int n = A.rows(); sym::check(r.converged && (int)r.eigenvalues.size() == n && (int)r.isComplexPair.size() == n, "converged with all eigenvalues"); std::vector<std::pair<double, double>> ev; double t = 0, u = 0, t2 = 0, u2 = 0; for (int i = 0; i < n; i++) { auto &e = r.eigenvalues[i]; ev.push_back({e.real, e.imag}); u = u + e.real; u2 = u2 + e.real * e.real - e.imag * e.imag; t = t + A(i, i); for (int j = 0; j < n; j++) t2 = t2 + A(i, j) * A(j, i); } sym::eq(t, u, "trace"); sym::eq(t2, u2, "sum of the squares of the eigenvalues", defective ? 1e-5 : 1e-7); pairs(A, r.eigenvectors, r.isComplexPair, ev, "A v = lambda v"); sym::check(r.maxResidual < 1e-7, "residual reported"); }
// [[e, u], [0, A]] and [[A, u], [0, e]] with a symbolic coupling u and a symbolic or concrete e
static M coupled(const M &A, double e, bool first) { int n = A.rows(); M B = beside(A, e, first); for (int i = 0; i < n; i++) { double u = i ? i - 1.5 : sym::real("u", -1, 1); if (first) B(0, i + 1) = u; else B(i, n) = u; } return B; }
CASEN(general, 0, NG - 1, NG - 1) { int w = sym::pick(0, 1, "first"); double e = sym::real("e", 12, 14); sym::obs("e", e); M A = beside(gpat(n), e, w); int N = A.rows(); for (int i = 1; i < N; i++) if (w) A(0, i) = i == 1 ? 2 : -1; else if (N < 5) A(i - 1, N - 1) = i == 1 ? -2 : 1; general(A, EigenSolver::Solve(A), DEF[n]); }
CASEN(generalu, 0, 3, 4) { int w = sym::pick(0, 1, "first"); M A = coupled(gpat(n), 13, w); sym::obs("u", A(0, A.rows() - 1)); general(A, EigenSolver::Solve(A), DEF[n]); }
CASEN(general2, 0, 0, 0) { static const double D[4][2] = {{-0.5, 0}, {-1, -1}, {1, -2}, {3, 1}}; double a = sym::real("a", -3, 3), c = sym::real("c", 0.5, 3); sym::obs("a", a); M A(2, 2); A(0, 0) = a; A(0, 1) = D[n][0]; A(1, 0) = c; A(1, 1) = D[n][1]; double disc = (a - D[n][1]) * (a - D[n][1]) + 4 * c * D[n][0]; sym::assume((disc > 0.01) | (disc < -0.01)); auto r = EigenSolver::Solve(A); if (disc < 0) general(A, r); else { double l = r.eigenvalues[0].real, m = r.eigenvalues[1].real; sym::eq(l + m, a + A(1, 1), "trace"); sym::eq(l * m, a * A(1, 1) - A(0, 1) * c, "determinant"); const M &X = r.eigenvectors; for (int i = 0; i < 1; i++) sym::eq((a * X(0, i) + A(0, 1) * X(1, i)) * X(1, i), (c * X(0, i) + A(1, 1) * X(1, i)) * X(0, i), "eigenvector"); } sym::check(r.isComplexPair[0] == (disc < 0), "complex when the discriminant is negative"); }
