// BOUNDS: Matrix shapes up to 3x3 (entries any real in [-8,8]); start indices, counts and indices any 32-bit int; resize from up to 4x3 to any shape up to 4x4 (and any int up to 2^31-1 for the rejection side)
// OUTSIDE: allocation failure
#include "h.h"
static const int IM = 2147483647;
CASEN(sub, 1, 3, 3) { // every in-range block is copied exactly
  int R = n, C = sym::pick(1, 3, "C"); Matrix<Real> A = sMat("a", R, C); int r = sym::pick(0, R - 1, "r"), c = sym::pick(0, C - 1, "c"), h = sym::pick(1, R - r, "h"), w = sym::pick(1, C - c, "w");
  Matrix<Real> S = A.GetSubmatrix(r, c, h, w); sym::check(S.rows() == h && S.cols() == w, "submatrix shape"); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) sym::eq(S(i, j), A(r + i, c + j), "submatrix entries");
  Matrix<Real> O = A; double x = sym::real("x"); const Matrix<Real> &cA = O; auto K = cA.block(r, c, h, w); auto B = A.block(r, c, h, w); sym::check(B.rows() == h && B.cols() == w && K.rows() == h && K.cols() == w, "block shape");
  for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { sym::eq(K(i, j), O(r + i, c + j), "const block entries"); sym::eq(B(i, j), O(r + i, c + j), "block entries"); B(i, j) = x; }
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym::eq(A(i, j), i >= r && i < r + h && j >= c && j < c + w ? x : O(i, j), "writes through a block touch exactly the block"); sym::obs("s", S(0, 0)); }
CASEN(subrange, 1, 3, 3) { // arbitrary ints outside the matrix are rejected
  int R = n, C = sym::pick(1, 3, "C"); Matrix<Real> A(R, C, 1.0); const Matrix<Real> &cA = A; int r = sym::integer("r", -IM - 1, IM), c = sym::integer("c", -IM - 1, IM), h = sym::integer("h", -IM - 1, IM), w = sym::integer("w", -IM - 1, IM);
  bool ok = r >= 0 && c >= 0 && h > 0 && w > 0 && (long)r + h <= R && (long)c + w <= C; sym::assume(!ok);
  sym::check(THROWS(MatrixDimensionError, (void)A.GetSubmatrix(r, c, h, w)), "submatrix leaving the matrix is rejected"); sym::check(THROWS(MatrixDimensionError, (void)A.block(r, c, h, w)), "block leaving the matrix is rejected"); sym::check(THROWS(MatrixDimensionError, (void)cA.block(r, c, h, w)), "const block leaving the matrix is rejected"); }
CASEN(access, 1, 3, 3) { int R = n, C = sym::pick(1, 3, "C"); Matrix<Real> A = sMat("a", R, C); const Matrix<Real> &cA = A; int i = sym::integer("i", -IM - 1, IM), j = sym::integer("j", -IM - 1, IM); double x = sym::real("x"); bool ri = i >= 0 && i < R, cj = j >= 0 && j < C;
  sym::check(sym_throws<MatrixAccessBoundsError>([&] { double v = cA.at(i, j); sym::eq(v, A(i, j), "at value"); }) == !(ri && cj), "const at throws iff out of range");
  Matrix<Real> B = A; sym::check(sym_throws<MatrixAccessBoundsError>([&] { B.at(i, j) = x; for (int p = 0; p < R; p++) for (int q = 0; q < C; q++) sym::eq(B(p, q), p == i && q == j ? x : A(p, q), "at write touches one entry"); }) == !(ri && cj), "at throws iff out of range");
  sym::check(sym_throws<MatrixAccessBoundsError>([&] { auto v = A.VectorFromRow(i); sym::check(v.size() == C, "row size"); for (int q = 0; q < C; q++) sym::eq(v[q], A(i, q), "row entries"); }) == !ri, "VectorFromRow throws iff out of range");
  sym::check(sym_throws<MatrixAccessBoundsError>([&] { auto v = A.VectorFromColumn(j); sym::check(v.size() == R, "column size"); for (int p = 0; p < R; p++) sym::eq(v[p], A(p, j), "column entries"); }) == !cj, "VectorFromColumn throws iff out of range");
  sym::check(sym_throws<MatrixAccessBoundsError>([&] { int q = 0; for (double v : cA.row(i)) { sym::eq(v, A(i, q), "row range"); q++; } sym::check(q == C, "row range length"); }) == !ri, "row throws iff out of range");
  sym::check(sym_throws<MatrixAccessBoundsError>([&] { int q = 0; for (double &v : B.row(i)) { v = x; q++; } sym::check(q == C, "mutable row range length"); }) == !ri, "mutable row throws iff out of range");
  if (R > 0) { Matrix<Real> D = A; sym::check(sym_throws<MatrixAccessBoundsError>([&] { int p = 0; for (double &v : D.col(j)) { sym::eq(v, A(p, j), "column range"); v = x; p++; } sym::check(p == R, "column range length"); for (int a = 0; a < R; a++) for (int b = 0; b < C; b++) sym::eq(D(a, b), b == j ? x : A(a, b), "column range writes its column"); }) == !cj, "col throws iff out of range"); } }
CASEN(rowcol, 1, 3, 3) { int R = n, C = sym::pick(1, 3, "C"), m = sym::pick(0, 3, "m"); Matrix<Real> A = sMat("a", R, C); Vector<Real> v = sVec("v", m); int k = sym::integer("k", -IM - 1, IM), l = sym::integer("l", -IM - 1, IM);
  Matrix<Real> B = A; int r = sym_throws<MatrixAccessBoundsError>([&] { B.InitRowWithVector(k, v); }); bool in = k >= 0 && k < R; sym::check(r == (!in ? 1 : m != C ? 2 : 0), "InitRowWithVector errors"); if (r) eqM(B, A, R, C, "failed InitRow leaves the matrix"); else for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym::eq(B(i, j), i == k ? v[j] : A(i, j), "InitRow sets the row");
  B = A; r = sym_throws<MatrixAccessBoundsError>([&] { B.InitColWithVector(k, v); }); in = k >= 0 && k < C; sym::check(r == (!in ? 1 : m != R ? 2 : 0), "InitColWithVector errors"); if (r) eqM(B, A, R, C, "failed InitCol leaves the matrix"); else for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym::eq(B(i, j), j == k ? v[i] : A(i, j), "InitCol sets the column");
  B = A; r = sym_throws<MatrixDimensionError>([&] { B.SwapRows(k, l); }); in = k >= 0 && k < R && l >= 0 && l < R; sym::check(r == !in, "SwapRows throws iff out of range"); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym::eq(B(i, j), A(!in ? i : i == k ? l : i == l ? k : i, j), "SwapRows");
  B = A; r = sym_throws<MatrixDimensionError>([&] { B.SwapCols(k, l); }); in = k >= 0 && k < C && l >= 0 && l < C; sym::check(r == !in, "SwapCols throws iff out of range"); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym::eq(B(i, j), A(i, !in ? j : j == k ? l : j == l ? k : j), "SwapCols"); }
CASEN(resize, 0, 4, 5) { int R = n, C = sym::pick(1, 3, "C"), r = sym::pick(-1, 4, "r"), c = sym::pick(-1, 4, "c"); bool keep = sym::flag("keep"); if (R == 0) C = 0; Matrix<Real> A = sMat("a", R, C), B = A;
  int t = sym_throws<MatrixDimensionError>([&] { B.Resize(r, c, keep); }); bool bad = !(r == R && c == C) && (r <= 0 || c <= 0); sym::check(t == bad, "Resize rejects non-positive shapes"); if (t) { sym::check(B.rows() == R && B.cols() == C, "failed Resize keeps shape"); eqM(B, A, R, C, "failed Resize keeps entries"); }
  else { sym::check(B.rows() == r && B.cols() == c, "Resize shape"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sym::eq(B(i, j), (r == R && c == C) || (keep && i < R && j < C) ? A(i, j) : 0.0, "Resize contents"); } }
CASE(reject) { int r = sym::integer("r", -IM - 1, IM), c = sym::integer("c", -IM - 1, IM); sym::assume(r < 0 || c < 0 || (r > 0 && c > 0 && (r > 100000000 || c > 100000000))); sym::check(sym_throws<std::exception>([&] { Matrix<Real> A(r, c); }) == 1, "negative or enormous shapes rejected"); sym::check(sym_throws<std::exception>([&] { Matrix<Real> A(r, c, 1.0); }) == 1, "negative or enormous shapes rejected (fill)"); Matrix<Real> B(2, 2, 1.0); sym::check(sym_throws<std::exception>([&] { B.Resize(r, c); }) == 1, "Resize to negative or enormous rejected"); sym::check(B.rows() == 2 && B.cols() == 2, "shape kept"); }
CASE(ctors) { int R = sym::pick(0, 3, "R"), C = sym::pick(0, 3, "C"); std::vector<double> d = sym::reals("d", R * C); std::vector<std::vector<double>> nest(R); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) nest[i].push_back(d[i * C + j]);
  Matrix<Real> A(nest), B(R, C, d.data(), true), D(R, C, d.data(), false); if (R && C) { sym::check(A.rows() == R && A.cols() == C && B.rows() == R && B.cols() == C && D.rows() == R && D.cols() == C, "ctor shapes"); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { sym::eq(A(i, j), d[i * C + j], "nested"); sym::eq(B(i, j), d[i * C + j], "row-wise"); sym::eq(D(i, j), d[j * R + i], "column-wise"); } } else sym::check(A.isEmpty() && B.isEmpty() && D.isEmpty(), "empty");
  if (R >= 2 && C) { int k = sym::pick(1, R - 1, "k"); bool more = sym::flag("more"); if (more) nest[k].push_back(1); else nest[k].pop_back(); sym::check(THROWS(MatrixDimensionError, Matrix<Real> X(nest)), "ragged rows rejected"); }
  sym::check((sym_throws<MatrixDimensionError>([&] { Matrix<Real> X(R, C, {1.0, 2.0, 3.0, 4.0}); }) == 1) == (R && C && R * C != 4), "strict initializer list size"); if (R && C) { Matrix<Real> X(R, C, {1.0, 2.0, 3.0, 4.0}, false); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym::eq(X(i, j), i * C + j < 4 ? i * C + j + 1 : 0, "lenient initializer list"); } }
CASE(move) { Matrix<Real> A = sMat("a", 2, 3), K = A; Matrix<Real> B(std::move(A)); eqM(B, K, 2, 3, "moved-to"); sym::check(A.rows() == 0 && A.cols() == 0, "moved-from is empty"); Matrix<Real> D(1, 1); D = std::move(B); eqM(D, K, 2, 3, "move-assigned"); sym::check(D.rows() == 2 && D.cols() == 3 && B.rows() == 0, "move assignment shapes"); Matrix<Real> E = D; E(0, 0) = 99; sym::eq(D(0, 0), K(0, 0), "copies are independent"); D = D; eqM(D, K, 2, 3, "self-assign"); }
CASEN(tri, 1, 3, 4) { Matrix<Real> A = sMat("a", n, n); auto L = A.GetLower(), l = A.GetLower(false), U = A.GetUpper(), u = A.GetUpper(false); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { sym::eq(L(i, j), j <= i ? A(i, j) : 0, "lower"); sym::eq(l(i, j), j < i ? A(i, j) : 0, "strict lower"); sym::eq(U(i, j), j >= i ? A(i, j) : 0, "upper"); sym::eq(u(i, j), j > i ? A(i, j) : 0, "strict upper"); } auto d = A.diagonal(); for (int i = 0; i < n; i++) sym::eq(d[i], A(i, i), "diagonal"); Matrix<Real> M = A; M.MakeUnitMatrix(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym::eq(M(i, j), i == j, "unit"); Matrix<Real> T = A; T.Transpose(); eqM(T, A.transpose(), n, n, "transpose in place"); T.Transpose(); eqM(T, A, n, n, "double transpose"); }
CASE(transrect) { Matrix<Real> A = sMat("a", 2, 3); auto T = A.transpose(); sym::check(T.rows() == 3 && T.cols() == 2, "transpose shape"); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) sym::eq(T(j, i), A(i, j), "transpose"); }
CASE(nmat) { auto A = sMatNM<2, 3>("a"); const auto &cA = A; int i = sym::integer("i", -IM - 1, IM), j = sym::integer("j", -IM - 1, IM); double x = sym::real("x"); bool ok = i >= 0 && i < 2 && j >= 0 && j < 3; sym::check(sym_throws<MatrixAccessBoundsError>([&] { double v = cA.at(i, j); sym::eq(v, A(i, j), "MatrixNM at"); }) == !ok, "MatrixNM const at throws iff out of range"); auto B = A; sym::check(sym_throws<MatrixAccessBoundsError>([&] { B.at(i, j) = x; for (int p = 0; p < 2; p++) for (int q = 0; q < 3; q++) sym::eq(B(p, q), p == i && q == j ? x : A(p, q), "MatrixNM at write"); }) == !ok, "MatrixNM at throws iff out of range");
  double arr[6]; for (int k = 0; k < 6; k++) arr[k] = sym::real("r", k, -8, 8); int len = sym::pick(0, 6, "len"); MatrixNM<Real, 2, 3> M(arr, len); for (int p = 0; p < 2; p++) for (int q = 0; q < 3; q++) sym::eq(M(p, q), p * 3 + q < len ? arr[p * 3 + q] : 0, "MatrixNM from array"); MatrixNM<Real, 2, 2> L{arr[0], arr[1], arr[2]}; sym::eq(L(0, 0), arr[0], "list"); sym::eq(L(0, 1), arr[1], "list"); sym::eq(L(1, 0), arr[2], "list"); sym::eq(L(1, 1), 0, "list pads with zero"); }
