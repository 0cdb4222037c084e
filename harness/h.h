#pragma once
#include "sym.h"
#include "mml/MMLBase.h"
#include "mml/MMLExceptions.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Vector/VectorN.h"
#include "mml/base/Vector/VectorTypes.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/base/Matrix/MatrixNM.h"
#include "mml/base/BaseUtils.h"
using namespace MML;
inline Vector<Real> sVec(const char *n, int k, double lo = -8, double hi = 8) { Vector<Real> v(k); for (int i = 0; i < k; i++) v[i] = sym::real(n, i, lo, hi); return v; }
inline Matrix<Real> sMat(const char *n, int r, int c, double lo = -8, double hi = 8) { Matrix<Real> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sym::real(n, i * c + j, lo, hi); return m; }
template <int N> VectorN<Real, N> sVecN(const char *n, double lo = -8, double hi = 8) { VectorN<Real, N> v; for (int i = 0; i < N; i++) v[i] = sym::real(n, i, lo, hi); return v; }
template <int N, int M> MatrixNM<Real, N, M> sMatNM(const char *n, double lo = -8, double hi = 8) { MatrixNM<Real, N, M> m; for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) m(i, j) = sym::real(n, i * M + j, lo, hi); return m; }
template <class A, class B> void eqV(const A &a, const B &b, int n, const char *l, double tol = 1e-7) { for (int i = 0; i < n; i++) sym::eq(a[i], b[i], l, tol); }
template <class A, class B> void eqM(const A &a, const B &b, int r, int c, const char *l, double tol = 1e-7) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sym::eq(a(i, j), b(i, j), l, tol); }
inline double det3(double a, double b, double c, double d, double e, double f, double g, double h, double i) { return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g); }
// separation assumptions; the native replay accepts inputs a rounding error short of the threshold
#ifdef SYM_NATIVE
#define SYM_SLACK 0.999999
#else
#define SYM_SLACK 1.0
#endif
inline bool far(double d, double e = 0.0009765625) { return (d >= e * SYM_SLACK) | (d <= -e * SYM_SLACK); }
inline bool sep(double d, double e = 0.0009765625) { return (d == 0) | (d >= e * SYM_SLACK) | (d <= -e * SYM_SLACK); }
