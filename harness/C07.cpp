// BOUNDS: Jacobi, Gauss-Seidel and SOR on 1x1..3x3 systems: matrices of fixed diagonally dominant patterns with one symbolic entry, arbitrary right-hand side and start vector in [-8,8], 1..2 iterations, arbitrary tolerance and relaxation factor
// OUTSIDE: long iterations; rounding; formatted error texts
#include "la.h"
#include "mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"
static Matrix<Real> dd(int n) { static const double P[3][9] = {{4}, {4, -1, 2, 5}, {5, 1, -2, 1, -4, 1, 2, 1, 6}}; Matrix<Real> A(n, n); for (int i = 0; i < n * n; i++) A(i / n, i % n) = P[n - 1][i]; return A; }
static double n2(const Vector<Real> &r) { double s = 0; for (int i = 0; i < r.size(); i++) s += r[i] * r[i]; return s; }
// reference sweep
static Vector<Real> sweep(int kind, const Matrix<Real> &A, const Vector<Real> &b, const Vector<Real> &x, double w) { int n = A.rows(); Vector<Real> y = x; for (int i = 0; i < n; i++) { double s = b[i]; for (int j = 0; j < n; j++) if (j != i) s -= A(i, j) * (kind == 0 ? x[j] : y[j]); double g = s / A(i, i); y[i] = kind == 2 ? (1 - w) * x[i] + w * g : g; } return y; }
static IterativeSolverResult run(int kind, const Matrix<Real> &A, const Vector<Real> &b, const Vector<Real> &x0, double w, double tol, int it) { return kind == 0 ? JacobiSolver::Solve(A, b, x0, tol, it) : kind == 1 ? GaussSeidelSolver::Solve(A, b, x0, tol, it) : SORSolver::Solve(A, b, w, x0, tol, it); }
static void sweeps(int kind, int n, bool symA, bool symW) {
  Matrix<Real> A = dd(n), K; if (symA) { A(n - 1, 0) = sym::real("p", -3, 3); A(0, 0) = sym::real("q", 4, 6); } K = A; double w = symW ? sym::real("w", 0.25, 1.75) : 1.25; Vector<Real> b = sVec("b", n), x0 = sVec("x", n); double tol = sym::real("tol", 0.01, 4); int it = sym::pick(1, n < 3 ? 2 : 1, "it");
  auto r = run(kind, A, b, x0, w, tol, it); sym::obs("x", r.solution[0]); sym::check(r.iterations >= 1 && r.iterations <= it, "iteration count"); sym::check(r.converged || r.iterations == it, "stops early only when converged"); Vector<Real> x = x0; double bn = n2(b); for (int k = 1; k <= r.iterations; k++) { x = sweep(kind, A, b, x, w); if (k < r.iterations) { double e = n2(A * x - b); sym::check(bn == 0 ? e >= tol * tol : e >= tol * tol * bn, "iterates until the tolerance is met"); } }
  eqV(r.solution, x, n, "iterate equals the method's sweep"); double e = n2(A * x - b); sym::check(r.converged == (bn == 0 ? e < tol * tol : e < tol * tol * bn), "converged exactly when the relative residual is below tolerance"); sym::check(r.residual >= 0, "residual nonnegative"); if (bn == 0) sym::eq(r.residual * r.residual, e, "reported residual (b = 0)"); else sym::eq(r.residual * r.residual * bn, e, "reported residual"); eqM(A, K, n, n, "A unchanged"); }
CASEN(jacobi, 1, 2, 3) { sweeps(0, n, n < 2, false); }
CASEN(seidel, 1, 2, 3) { sweeps(1, n, n < 2, false); }
CASEN(sor, 1, 2, 3) { sweeps(2, n, false, n < 2); }
CASEN(first, 0, 2, 2) { // one sweep from an arbitrary start, 3x3, and a default start of zero
  Matrix<Real> A = dd(3); A(0, 1) = sym::real("p", -2, 2); Vector<Real> b = sVec("b", 3), x0 = sVec("x", 3), z(3); double w = n == 2 ? sym::real("w", 0.25, 1.75) : 1; auto r = run(n, A, b, x0, w, -1, 1); eqV(r.solution, sweep(n, A, b, x0, w), 3, "one sweep"); sym::check(!r.converged && r.iterations == 1, "no convergence with unreachable tolerance"); auto s = run(n, A, b, Vector<Real>(), w, -1, 1); eqV(s.solution, sweep(n, A, b, z, w), 3, "default start is zero"); sym::obs("x", s.solution[2]); }
CASEN(two, 0, 2, 2) { Matrix<Real> A = dd(3); Vector<Real> b = sVec("b", 3), x0 = sVec("x", 3); double w = 0.75; auto r = run(n, A, b, x0, w, -1, 2); eqV(r.solution, sweep(n, A, b, sweep(n, A, b, x0, w), w), 3, "two sweeps"); }
CASEN(exact, 0, 2, 2) { // started at the solution: converges at once and stays there
  int m = sym::pick(1, 3, "m"); Matrix<Real> A = dd(m); A(m - 1, m - 1) = sym::real("p", 4, 8); Vector<Real> x = sVec("x", m), b = A * x; double w = n == 2 ? sym::real("w", 0.25, 1.75) : 1; auto r = run(n, A, b, x, w, 1e-6, 5); sym::check(r.converged && r.iterations == 1, "solution is a fixed point"); eqV(r.solution, x, m, "fixed point value"); }
CASEN(contract, 0, 2, 2) { // strictly diagonally dominant: the max-norm error never grows
  Matrix<Real> A = dd(3); Vector<Real> x = sVec("x", 3, -2, 2), e = sVec("e", 3, -1, 1); Vector<Real> b = A * x, x0 = x + e; auto r = run(n, A, b, x0, 0.75, -1, 1); for (int i = 0; i < 3; i++) { sym::check(r.solution[i] - x[i] <= 1.0 && x[i] - r.solution[i] <= 1.0, "max-norm error does not grow"); } }
CASE(cfg) { Matrix<Real> A = dd(2); Vector<Real> b = sVec("b", 2); IterativeSolverConfig c; c.tolerance = -1; c.max_iterations = 1; c.omega = 1.5; auto j = JacobiSolver::Solve(A, b, c); auto g = GaussSeidelSolver::Solve(A, b, c); auto s = SORSolver::Solve(A, b, c); Vector<Real> z(2); eqV(j.solution, sweep(0, A, b, z, 1), 2, "Jacobi config form"); eqV(g.solution, sweep(1, A, b, z, 1), 2, "Gauss-Seidel config form"); eqV(s.solution, sweep(2, A, b, z, 1.5), 2, "SOR config form"); for (auto *r : {&j, &g, &s}) sym::check(!r->converged && r->status == AlgorithmStatus::MaxIterationsExceeded, "non-convergence is reported"); sym::eq(s.omega_used, 1.5, "omega reported"); c.tolerance = 1e9; auto k = SORSolver::Solve(A, b, c); sym::check(k.converged && k.status == AlgorithmStatus::Success, "convergence is reported"); }
CASE(simple) { Matrix<Real> A = dd(2); Vector<Real> b = sVec("b", 2); sym::check(THROWS(ConvergenceError, JacobiSolver::SolveSimple(A, b, -1, 2)), "Jacobi failure throws"); sym::check(THROWS(ConvergenceError, GaussSeidelSolver::SolveSimple(A, b, -1, 2)), "Gauss-Seidel failure throws"); sym::check(THROWS(ConvergenceError, SORSolver::SolveSimple(A, b, 1.2, -1, 2)), "SOR failure throws"); Vector<Real> z(2); eqV(SORSolver::SolveSimple(A, b, 1.2, 1e6, 3), sweep(2, A, b, z, 1.2), 2, "simple form returns the iterate"); }
CASE(refuse) { int r = sym::pick(1, 3, "r"), c = sym::pick(1, 3, "c"), m = sym::pick(1, 3, "m"), zi = sym::pick(0, 3, "zi"); Matrix<Real> A(r, c, 0.5); for (int i = 0; i < r && i < c; i++) A(i, i) = 4; if (zi < r && zi < c) A(zi, zi) = 0; Vector<Real> b(m, 1.0); bool shape = r != c || m != r, zero = !shape && zi < r; for (int k = 0; k < 3; k++) { sym::check(sym_throws<MatrixDimensionError>([&] { run(k, A, b, Vector<Real>(), 1.2, 1e-3, 2); }) == (shape ? 1 : zero ? 2 : 0), "shape errors"); sym::check(sym_throws<SingularMatrixError>([&] { run(k, A, b, Vector<Real>(), 1.2, 1e-3, 2); }) == (shape ? 2 : zero ? 1 : 0), "zero diagonal refused"); } }
CASE(omega) { static const double W[6] = {-1, 0, 1e-9, 1.999999, 2, 3}; int k = sym::pick(0, 5, "k"); Matrix<Real> A = dd(2); Vector<Real> b = sVec("b", 2); bool bad = k < 2 || k > 3; sym::check(sym_throws<NumericalMethodError>([&] { SORSolver::Solve(A, b, W[k], Vector<Real>(), -1, 1); }) == bad, "relaxation factor must lie in (0,2)"); double w = sym::real("w", -4, 6); sym::check(sym_throws<NumericalMethodError>([&] { SORSolver::Solve(A, b, w, Vector<Real>(), -1, 1); }) == !(w > 0 && w < 2), "relaxation factor range"); }
