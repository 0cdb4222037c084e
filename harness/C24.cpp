// BOUNDS: functions of three variables, polynomial up to degree 9 in the differentiated variable (coefficients in [-1,1]) with every bilinear coupling to the others, at every point of [-4,4]^3, every step in [1/8,1] and the default steps; vector functions, tensor fields of rank 2 to 4; Jacobians up to 3x3 and 2x3
// OUTSIDE: rounding, functions that are not polynomials
#include "h.h"
#include "mml/core/Derivation.h"
#include "mml/core/Derivation/Jacobians.h"
#include "mml/core/Derivation/DerivationTensorField.h"
#include <functional>
using namespace MML::Derivation;
typedef VectorN<Real, 3> V3;
static const double H[] = {0.125, 0.5, 1}; static const int DEG[] = {1, 2, 4, 6, 8};
// component k: (k+1) times sum c_m u^m, plus terms that vanish on the line through p along axis i
struct Core { int i, n; V3 p; double c[10], g[3]; Core(int i_, int n_) : i(i_), n(n_) { for (int m = 0; m < n; m++) c[m] = sym::real("c", m, -1, 1); for (int j = 0; j < 3; j++) { p[j] = sym::real("p", j, -4, 4); g[j] = sym::real("g", j, -1, 1); } } double at(const V3 &x, int k) const { double u = x[i] - p[i], s = 0; for (int m = n - 1; m >= 0; m--) s = s * u + c[m]; s *= k + 1; for (int j = 0; j < 3; j++) if (j != i) s += g[j] * (x[j] - p[j]) * (1 + u); return s; } };
struct Sc : IScalarFunction<3>, Core { using Core::Core; Real operator()(const V3 &x) const { return at(x, 0); } };
struct Ve : IVectorFunction<3>, Core { using Core::Core; V3 operator()(const V3 &x) const { return V3{at(x, 0), at(x, 1), at(x, 2)}; } };
struct T2 : ITensorField2<3>, Core { T2(int i, int n) : ITensorField2<3>(0, 2), Core(i, n) {} Real Component(int a, int b, const V3 &x) const { return at(x, a * 3 + b); } Tensor2<3> operator()(const V3 &) const { return Tensor2<3>(0, 2); } };
struct T3 : ITensorField3<3>, Core { T3(int i, int n) : ITensorField3<3>(0, 3), Core(i, n) {} Real Component(int a, int b, int c, const V3 &x) const { return at(x, (a * 3 + b) * 3 + c); } Tensor3<3> operator()(const V3 &) const { return Tensor3<3>(0, 3); } };
struct T4 : ITensorField4<3>, Core { T4(int i, int n) : ITensorField4<3>(0, 4), Core(i, n) {} Real Component(int a, int b, int c, int d, const V3 &x) const { return at(x, ((a * 3 + b) * 3 + c) * 3 + d); } Tensor4<3> operator()(const V3 &) const { return Tensor4<3>(0, 4); } };
typedef Real (*SP)(const IScalarFunction<3> &, int, const V3 &, Real, Real *); typedef Real (*SP0)(const IScalarFunction<3> &, int, const V3 &, Real *); typedef V3 (*SA)(const IScalarFunction<3> &, const V3 &, Real, V3 *); typedef V3 (*SA0)(const IScalarFunction<3> &, const V3 &, V3 *);
typedef Real (*VP)(const IVectorFunction<3> &, int, int, const V3 &, Real, Real *); typedef Real (*VP0)(const IVectorFunction<3> &, int, int, const V3 &, Real *); typedef V3 (*VA)(const IVectorFunction<3> &, int, const V3 &, Real, V3 *); typedef V3 (*VA0)(const IVectorFunction<3> &, int, const V3 &, V3 *);
typedef MatrixNM<Real, 3, 3> M3; typedef M3 (*VB)(const IVectorFunction<3> &, const V3 &, Real, M3 *); typedef M3 (*VB0)(const IVectorFunction<3> &, const V3 &, M3 *);
struct Row { double step; SP sp; SP0 sp0; SA sa; SA0 sa0; VP vp; VP0 vp0; VA va; VA0 va0; VB vb; VB0 vb0; };
#define RW(N) { N##_h, (SP)N##Partial<3>, (SP0)N##Partial<3>, (SA)N##PartialByAll<3>, (SA0)N##PartialByAll<3>, (VP)N##Partial<3>, (VP0)N##Partial<3>, (VA)N##PartialByAll<3>, (VA0)N##PartialByAll<3>, (VB)N##PartialAllByAll<3>, (VB0)N##PartialAllByAll<3> }
static const Row R[] = {RW(NDer1), RW(NDer2), RW(NDer4), RW(NDer6), RW(NDer8)};
// value exact on its degree, error estimate equal to the leading truncation error, nothing else depended on
template <class F> void core(const F &get, Core &f, int deg, int k) { double h = sym::real("h", 0.125, 1), v = get(h, nullptr), top = f.c[deg + 1]; sym::obs("p", f.p[0]); double hs = H[sym::pick(0, 2, "hs")], e = -1, w = get(hs, &e); f.c[deg + 1] = 0; double z = get(h, nullptr); sym::eq(z, (k + 1) * f.c[1], "exact up to the degree of the formula"); f.c[deg + 1] = top; double tr = w - (k + 1) * f.c[1]; sym::eq(e, std::abs(tr), "estimate equals the leading truncation error", 1e-6); double pw = 1; for (int i = 0; i < deg; i++) pw *= h; double q = 1; for (int i = 0; i < deg; i++) q *= hs; sym::eq((v - (k + 1) * f.c[1]) * q, tr * pw, "truncation error of the order of the formula"); }
CASEN(sc, 0, 4, 4) { int i = sym::pick(0, 2, "i"); Sc f(i, DEG[n] + 2); core([&](double h, double *e) { return R[n].sp(f, i, f.p, h, e); }, f, DEG[n], 0); }
CASEN(ve, 0, 4, 4) { int i = sym::pick(0, 2, "i"), k = sym::pick(0, 2, "k"); Ve f(i, DEG[n] + 2); core([&](double h, double *e) { return R[n].vp(f, k, i, f.p, h, e); }, f, DEG[n], k); }
CASEN(t2, 0, 2, 2) { int i = sym::pick(0, 2, "i"), a = (i + 1) % 3, b = n; T2 f(i, DEG[n] + 2); typedef Real (*P)(const ITensorField2<3> &, int, int, int, const V3 &, Real, Real *); static const P p[] = {(P)NDer1Partial<3>, (P)NDer2Partial<3>, (P)NDer4Partial<3>}; core([&](double h, double *e) { return p[n](f, a, b, i, f.p, h, e); }, f, DEG[n], a * 3 + b); typedef Real (*Q)(const ITensorField2<3> &, int, int, int, const V3 &, Real *); static const Q q[] = {(Q)NDer1Partial<3>, (Q)NDer2Partial<3>, (Q)NDer4Partial<3>}; sym::check(q[n](f, a, b, i, f.p, nullptr) == p[n](f, a, b, i, f.p, ScaleStep(R[n].step, f.p[i]), nullptr), "default step"); }
CASEN(t3, 0, 2, 2) { int i = sym::pick(0, 2, "i"), a = (i + 1) % 3, b = n, c = (i + 2 * n) % 3; T3 f(i, DEG[n] + 2); typedef Real (*P)(const ITensorField3<3> &, int, int, int, int, const V3 &, Real, Real *); static const P p[] = {(P)NDer1Partial<3>, (P)NDer2Partial<3>, (P)NDer4Partial<3>}; core([&](double h, double *e) { return p[n](f, a, b, c, i, f.p, h, e); }, f, DEG[n], (a * 3 + b) * 3 + c); typedef Real (*Q)(const ITensorField3<3> &, int, int, int, int, const V3 &, Real *); static const Q q[] = {(Q)NDer1Partial<3>, (Q)NDer2Partial<3>, (Q)NDer4Partial<3>}; sym::check(q[n](f, a, b, c, i, f.p, nullptr) == p[n](f, a, b, c, i, f.p, ScaleStep(R[n].step, f.p[i]), nullptr), "default step"); }
CASEN(t4, 0, 2, 2) { int i = sym::pick(0, 2, "i"), a = (i + 1) % 3, b = n, c = (i + 2 * n) % 3, d = (2 * i + n + 1) % 3; T4 f(i, DEG[n] + 2); typedef Real (*P)(const ITensorField4<3> &, int, int, int, int, int, const V3 &, Real, Real *); static const P p[] = {(P)NDer1Partial<3>, (P)NDer2Partial<3>, (P)NDer4Partial<3>}; core([&](double h, double *e) { return p[n](f, a, b, c, d, i, f.p, h, e); }, f, DEG[n], ((a * 3 + b) * 3 + c) * 3 + d); typedef Real (*Q)(const ITensorField4<3> &, int, int, int, int, int, const V3 &, Real *); static const Q q[] = {(Q)NDer1Partial<3>, (Q)NDer2Partial<3>, (Q)NDer4Partial<3>}; sym::check(q[n](f, a, b, c, d, i, f.p, nullptr) == p[n](f, a, b, c, d, i, f.p, ScaleStep(R[n].step, f.p[i]), nullptr), "default step"); }
// gradients and all-partials agree with the single partials
CASEN(all, 0, 4, 4) { int i = sym::pick(0, 2, "i"); Ve f(i, 2); Sc s(i, 2); double h = H[sym::pick(0, 2, "h")]; bool er = sym::flag("err"); V3 e, e0; V3 a = R[n].sa(s, s.p, h, er ? &e : nullptr), a0 = R[n].sa0(s, s.p, nullptr); sym::obs("p", f.p[0]); for (int j = 0; j < 3; j++) { double x; sym::eq(a[j], j == i ? s.c[1] : s.g[j], "gradient"); double v = R[n].sp(s, j, s.p, h, &x); if (er) sym::eq(e[j], x, "gradient error", 1e-9); double hs = ScaleStep(R[n].step, s.p[j]); sym::check(a0[j] == R[n].sp(s, j, s.p, hs, nullptr) && a0[j] == R[n].sp0(s, j, s.p, nullptr), "gradient with the default steps"); } M3 E, B = R[n].vb(f, f.p, h, er ? &E : nullptr); for (int k = 0; k < 3; k++) { V3 r = R[n].va(f, k, f.p, h, nullptr); for (int j = 0; j < 3; j++) { sym::eq(r[j], j == i ? (k + 1) * f.c[1] : f.g[j], "gradient of a component"); sym::eq(B(k, j), r[j], "matrix of all partials"); } } }
CASEN(alldef, 0, 4, 4) { Ve f(1, 2); V3 g; int k = sym::pick(0, 2, "k"); sym::obs("p", f.p[0]); M3 B = R[n].vb0(f, f.p, nullptr); V3 r = R[n].va0(f, k, f.p, nullptr); for (int j = 0; j < 3; j++) { double hs = ScaleStep(R[n].step, f.p[j]), v = R[n].vp(f, k, j, f.p, hs, nullptr); sym::check(B(k, j) == v && r[j] == v && R[n].vp0(f, k, j, f.p, nullptr) == v, "default steps"); } }
CASEN(allerr, 0, 4, 4) { Ve f(1, 2); int k = sym::pick(0, 2, "k"); f.c[0] = 1; f.g[0] = 0; f.g[2] = 0; V3 e, e0, se; M3 E, E0; Sc s(1, 2); s.c[0] = 1; s.g[0] = s.g[2] = 0; sym::obs("p", f.p[0]); R[n].va(f, k, f.p, 0.5, &e); R[n].vb(f, f.p, 0.5, &E); for (int j = 0; j < 3; j++) { double x; R[n].vp(f, k, j, f.p, 0.5, &x); sym::check(e[j] == x && E(k, j) == x, "error of every partial"); } R[n].va0(f, k, f.p, &e0); R[n].sa0(s, s.p, &se); R[n].vb0(f, f.p, &E0); for (int j = 0; j < 3; j++) { double x; R[n].vp0(f, k, j, f.p, &x); sym::check(e0[j] == x && E0(k, j) == x, "error of every partial, default step"); R[n].sp0(s, j, s.p, &x); sym::check(se[j] == x, "error of every gradient entry, default step"); } }
// second partial derivatives
CASEN(pure, 0, 1, 1) { int i = sym::pick(0, 2, "i"), deg = n ? 5 : 3; Sc f(i, deg + 2); double top = f.c[deg + 1], h = sym::real("h", 0.125, 1), hs = H[sym::pick(0, 2, "hs")], e = -1; sym::obs("p", f.p[0]); auto D = [&](double h, double *e) { return n ? NSecDer4Partial<3>(f, i, i, f.p, h, e) : NSecDer2Partial<3>(f, i, i, f.p, h, e); }; double w = D(hs, &e); sym::eq(e, std::abs(w - 2 * f.c[2]), "estimate equals the leading truncation error", 1e-6); f.c[deg + 1] = 0; sym::eq(D(h, nullptr), 2 * f.c[2], "exact up to the degree of the formula"); (void)top; }
struct Mx : IScalarFunction<3> { int i, j; V3 p; double c[7][7]; int dg; Mx(int a, int b, int d, int tot) : i(a), j(b), dg(d) { for (int m = 0; m <= d; m++) for (int k = 0; k <= d; k++) c[m][k] = m + k <= tot ? sym::real("c", m * 7 + k, -1, 1) : 0; for (int m = 0; m < 3; m++) p[m] = sym::real("p", m, -4, 4); } Real operator()(const V3 &x) const { double u = x[i] - p[i], v = x[j] - p[j], w = x[3 - i - j] - p[3 - i - j], s = 0; for (int m = dg; m >= 0; m--) { double q = 0; for (int k = dg; k >= 0; k--) q = q * v + c[m][k]; s = s * u + q; } return s + w * (1 + u + v); } };
CASEN(mixed, 0, 1, 1) { int i = sym::pick(0, 2, "i"), j = (i + 1 + sym::pick(0, 1, "j")) % 3; Mx f(i, j, n ? 5 : 3, n ? 5 : 3); double h = sym::real("h", 0.125, 1), a = n ? NSecDer4Partial<3>(f, i, j, f.p, h, nullptr) : NSecDer2Partial<3>(f, i, j, f.p, h, nullptr), b = n ? NSecDer4Partial<3>(f, j, i, f.p, h, nullptr) : NSecDer2Partial<3>(f, j, i, f.p, h, nullptr); sym::obs("p", f.p[0]); sym::eq(a, f.c[1][1], "mixed derivative exact up to the degree of the formula"); sym::eq(b, a, "order of differentiation does not matter"); }
CASEN(secdef, 0, 1, 1) { int i = sym::pick(0, 2, "i"), j = sym::pick(0, 2, "j"); Sc f(i, 3); double a = std::abs(f.p[i]), b = std::abs(f.p[j]), m = a > b ? a : b, h = (n ? NDer4_h : NDer2_h) * (m > 1 ? m : 1); sym::obs("p", f.p[0]); double v = n ? NSecDer4Partial<3>(f, i, j, f.p) : NSecDer2Partial<3>(f, i, j, f.p), w = n ? NSecDer4Partial<3>(f, i, j, f.p, h, nullptr) : NSecDer2Partial<3>(f, i, j, f.p, h, nullptr); sym::check(v == w, "default step"); }
// Jacobians
struct Q3 : IVectorFunction<3> { V3 p; double a[3][3], q[3][3]; Q3() { for (int i = 0; i < 3; i++) { p[i] = sym::real("p", i, -4, 4); for (int j = 0; j < 3; j++) { a[i][j] = sym::real("a", i * 3 + j, -1, 1); q[i][j] = sym::real("q", i * 3 + j, -1, 1); } } } V3 operator()(const V3 &x) const { V3 r; for (int i = 0; i < 3; i++) { r[i] = 1; for (int j = 0; j < 3; j++) { double u = x[j] - p[j]; r[i] += u * (a[i][j] + u * q[i][j]); } r[i] += (x[0] - p[0]) * (x[1] - p[1]) * (x[2] - p[2]); } return r; } };
CASE(jac) { Q3 f; auto J = calcJacobian<3>(f, f.p); sym::obs("p", f.p[0]); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym::eq(J(i, j), f.a[i][j], "J(i,j) is the derivative of component i along j", 1e-6); }
struct Q23 : IVectorFunctionNM<2, 3> { Q3 g; VectorN<Real, 3> operator()(const VectorN<Real, 2> &x) const { return g(V3{x[0], x[1], g.p[2]}); } };
struct Q32 : IVectorFunctionNM<3, 2> { Q3 g; VectorN<Real, 2> operator()(const V3 &x) const { V3 r = g(x); return VectorN<Real, 2>{r[0], r[1]}; } };
CASE(jacnm) { Q23 f; auto J = calcJacobian<2, 3>(f, VectorN<Real, 2>{f.g.p[0], f.g.p[1]}); sym::obs("p", f.g.p[0]); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) sym::eq(J(i, j), f.g.a[i][j], "J(i,j) is the derivative of component i along j", 1e-6); }
CASE(jacmn) { Q32 f; auto J = calcJacobian<3, 2>(f, f.g.p); sym::obs("p", f.g.p[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) sym::eq(J(i, j), f.g.a[i][j], "J(i,j) is the derivative of component i along j", 1e-6); }
CASEN(jdyn, 1, 3, 3) { Q3 q; for (int i = n; i < 3; i++) q.p[i] = 0; auto f = [&](const Vector<Real> &x) { V3 y; for (int i = 0; i < n; i++) y[i] = x[i]; V3 r = q(y); Vector<Real> o(n); for (int i = 0; i < n; i++) o[i] = r[i]; return o; }; Vector<Real> p(n); for (int i = 0; i < n; i++) p[i] = q.p[i]; double h = sym::flag("default") ? 0 : sym::real("h", 0.125, 1); Matrix<Real> A = calcJacobianDyn(f, p, h), B(1, 5), C = calcJacobianDyn2(f, p, h), M; calcJacobianDynInPlace(f, p, B, h); calcJacobianMap(f, p, M, h); std::function<void(Real, const Vector<Real> &, Vector<Real> &)> d = [&](Real t, const Vector<Real> &x, Vector<Real> &o) { o = f(x); for (int i = 0; i < n; i++) o[i] += t * x[i] * (i + 1); }; double t = sym::real("t", -2, 2); Matrix<Real> O = calcJacobianODE(d, t, p, h); sym::obs("p", p[0]); for (const Matrix<Real> *m : {&A, &B, &C, &M, &O}) sym::check(m->rows() == n && m->cols() == n, "square"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = q.a[i][j]; sym::eq(A(i, j), e, "fourth-order Jacobian", 1e-6); sym::eq(B(i, j), e, "in-place Jacobian", 1e-6); sym::eq(C(i, j), e, "second-order Jacobian", 1e-6); sym::eq(M(i, j), e, "Jacobian of a map", 1e-6); sym::eq(O(i, j), e + (i == j ? t * (i + 1) : 0), "Jacobian of an ODE right-hand side", 1e-6); } }
CASEN(jdynm, 1, 3, 3) { Q3 q; for (int i = 2; i < 3; i++) q.p[i] = 0; auto f = [&](const Vector<Real> &x) { V3 r = q(V3{x[0], x[1], 0}); Vector<Real> o(n); for (int i = 0; i < n; i++) o[i] = r[i]; return o; }; Vector<Real> p{q.p[0], q.p[1]}; double h = sym::real("h", 0.125, 1); Matrix<Real> A = calcJacobianDyn(f, p, n, h); sym::obs("p", p[0]); sym::check(A.rows() == n && A.cols() == 2, "m by n"); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { sym::eq(A(i, j), q.a[i][j], "Jacobian of a rectangular function"); sym::eq(NDer4PartialDyn(f, i, j, p, h), q.a[i][j], "single partial"); sym::eq(NDer2PartialDyn(f, i, j, p, h), q.a[i][j], "single partial, second order"); } }
// fourth-order formulas are exact on quartics, second-order ones on quadratics
CASE(jord) { double p = sym::real("p", -4, 4), c[5], h = sym::real("h", 0.125, 1); for (int i = 0; i < 5; i++) c[i] = sym::real("c", i, -1, 1); auto f = [&](const Vector<Real> &x) { double u = x[0] - p; Vector<Real> r(1); r[0] = (((c[4] * u + c[3]) * u + c[2]) * u + c[1]) * u + c[0]; return r; }; Vector<Real> x(1); x[0] = p; sym::obs("p", p); sym::eq(NDer4PartialDyn(f, 0, 0, x, h), c[1], "fourth order"); sym::eq(NDer2PartialDyn(f, 0, 0, x, h), c[1] + c[3] * h * h, "second order"); Matrix<Real> J, M; calcJacobianMap(f, x, M, h); std::function<void(Real, const Vector<Real> &, Vector<Real> &)> d = [&](Real, const Vector<Real> &y, Vector<Real> &o) { o = f(y); }; calcJacobianODE(d, 0, x, J, h); double a = std::abs(p), s = h * (a > 1 ? a : 1); sym::eq(J(0, 0), c[1] + c[3] * s * s, "step scaled by max(1,|x|)"); sym::eq(M(0, 0), c[1] + c[3] * s * s, "step scaled by max(1,|x|)"); }
