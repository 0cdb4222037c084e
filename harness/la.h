#pragma once
#include "h.h"
#include "mml/core/LinAlgEqSolvers/LinAlgDirect.h"
#include "mml/core/LinAlgEqSolvers/LinAlgQR.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
// structured families of matrices: a concrete integer pattern with symbolic entries at chosen positions
inline Matrix<Real> pat3(int k) {
  static const double P[6][9] = {{4, 1, -1, 2, 5, 1, 1, -1, 6}, {0, 2, 1, 3, 0, 1, 1, 1, 0}, {1, 2, 3, 2, 4, 7, 3, 7, 1}, {0, 0, 2, 0, 3, 1, 4, 1, 0}, {1, -2, 1, -2, 6, -3, 1, -3, 5}, {2, 2, 0, 0, 1, 3, 5, 0, -1}};
  Matrix<Real> A(3, 3); for (int i = 0; i < 9; i++) A(i / 3, i % 3) = P[k][i]; return A; }
inline double detOf(const Matrix<Real> &A) { int n = A.rows(); if (n == 1) return A(0, 0); if (n == 2) return A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0); double s = 0; for (int c = 0; c < n; c++) { Matrix<Real> m(n - 1, n - 1); for (int i = 1; i < n; i++) for (int j = 0, q = 0; j < n; j++) if (j != c) m(i - 1, q++) = A(i, j); s += (c % 2 ? -1 : 1) * A(0, c) * detOf(m); } return s; }
// family: n=2: all symbolic; n>=10: pattern n-10 with two symbolic entries
inline Matrix<Real> fam(int n) {
  if (n == 1) return sMat("a", 1, 1);
  if (n == 2) return sMat("a", 2, 2);
  if (n == 3) { Matrix<Real> A(3, 3, 0.0); int p = sym::pick(0, 5, "perm"); static const int pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int i = 0; i < 3; i++) A(i, pm[p][i]) = sym::real("d", i, -8, 8); return A; }
  if (n == 4) { Matrix<Real> A(4, 4, 0.0); static const double P[16] = {0, 2, 0, 1, 1, 0, 3, 0, 0, 1, 0, 2, 2, 0, 1, 0}; for (int i = 0; i < 16; i++) A(i / 4, i % 4) = P[i]; A(0, 0) = sym::real("a", 0, -4, 4); return A; }
  int k = n - 10; Matrix<Real> A = pat3(k % 6); static const int pos[6][2] = {{0, 4}, {0, 8}, {4, 5}, {2, 6}, {1, 3}, {8, 2}}; int p = pos[k % 6][0], q = pos[(k + k / 6) % 6][1]; A(p / 3, p % 3) = sym::real("p", -8, 8); if (k < 6) A(q / 3, q % 3) = sym::real("q", -8, 8); return A; }

// the quick tier uses a lighter 2x2 family (two symbolic entries, four concrete completions) and skips part of the permutations
inline Matrix<Real> famq(int n) {
  if (sym::deep() || (n != 2 && n != 3)) return fam(n);
  if (n == 2) { Matrix<Real> A(2, 2); int k = sym::pick(0, 1, "k"); static const double P[2][2] = {{3, -2}, {1, 2}}; A(0, 0) = sym::real("a", 0, -8, 8); A(1, 0) = sym::real("a", 1, -8, 8); A(0, 1) = P[k][0]; A(1, 1) = P[k][1]; return A; }
  Matrix<Real> A(3, 3, 0.0); int p = sym::pick(0, 2, "perm"); static const int pm[3][3] = {{1, 0, 2}, {1, 2, 0}, {2, 1, 0}}; for (int i = 0; i < 3; i++) A(i, pm[p][i]) = sym::real("d", i, 0.5, 8); return A; }
