From 1cda9b64f219750757e85a519c41febf745f6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 01/95] fix: VectorN *= and /= read the scalar by value (v /=
 v[k] used the already scaled component)

---
 mml/base/Vector/VectorN.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 0e01755..175175a 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -249,7 +249,7 @@ namespace MML
 		}
 		/// @brief In-place scalar multiplication.
 		/// @param b Scalar multiplier
-		VectorN& operator*=(const Type& b)
+		VectorN& operator*=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] *= b;
@@ -266,7 +266,7 @@ namespace MML
 		}		
 		/// @brief In-place scalar division.
 		/// @param b Scalar divisor
-		VectorN& operator/=(const Type& b)
+		VectorN& operator/=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] /= b;
-- 
2.43.0


From f8fbb811bb4766b77530100dc5f758165633de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 02/95] fix: matrix *= and /= read the scalar by value (m *=
 m(i,j) used the already scaled element)

---
 mml/base/Matrix/Matrix.h   | 4 ++--
 mml/base/Matrix/Matrix3D.h | 4 ++--
 mml/base/Matrix/MatrixNM.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..b5a2336 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1005,7 +1005,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar multiplication
-		Matrix& operator*=(const Type& scalar)
+		Matrix& operator*=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem *= scalar;
@@ -1022,7 +1022,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar division
-		Matrix& operator/=(const Type& scalar)
+		Matrix& operator/=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem /= scalar;
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..3167879 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -356,13 +356,13 @@ namespace MML {
 		/// @{ */
 
 		/// @brief In-place scalar multiplication.
-		Matrix3D& operator*=(const Type& scalar) {
+		Matrix3D& operator*=(Type scalar) {
 			for (auto& elem : _data) elem *= scalar;
 			return *this;
 		}
 
 		/// @brief In-place scalar division.
-		Matrix3D& operator/=(const Type& scalar) {
+		Matrix3D& operator/=(Type scalar) {
 			for (auto& elem : _data) elem /= scalar;
 			return *this;
 		}
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index ca41849..18e5d6e 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -478,7 +478,7 @@ namespace MML {
 		}
 
 		/// @brief In-place scalar multiplication (A *= b).
-		MatrixNM& operator*=(const Type& b) {
+		MatrixNM& operator*=(Type b) {
 			int i, j;
 
 			for (i = 0; i < rows(); i++)
-- 
2.43.0


From 27ec460ec4f6c4d3edff1850126041a88e492fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 03/95] fix: Matrix submatrix/block range checks no longer
 overflow for counts near INT_MAX

---
 mml/base/Matrix/Matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index b5a2336..c671bd8 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -304,8 +304,8 @@ namespace MML
 				throw MatrixDimensionError("Matrix submatrix - invalid start indices", m._rows, m._cols, ind_row, ind_col);
 			if (row_num <= 0 || col_num <= 0)
 				throw MatrixDimensionError("Matrix submatrix - dimensions must be positive", row_num, col_num, -1, -1);
-			if (ind_row + row_num > m._rows || ind_col + col_num > m._cols)
-				throw MatrixDimensionError("Matrix submatrix - out of bounds", m._rows, m._cols, ind_row + row_num, ind_col + col_num);
+			if (row_num > m._rows - ind_row || col_num > m._cols - ind_col)
+				throw MatrixDimensionError("Matrix submatrix - out of bounds", m._rows, m._cols, row_num, col_num);
 			
 			_rows = row_num;
 			_cols = col_num;
@@ -622,7 +622,7 @@ namespace MML
 		MatrixViewNew<Type> block(int startRow, int startCol, int numRows, int numCols)
 		{
 			if (startRow < 0 || startCol < 0 || numRows <= 0 || numCols <= 0 ||
-			    startRow + numRows > _rows || startCol + numCols > _cols)
+			    startRow > _rows || numRows > _rows - startRow || startCol > _cols || numCols > _cols - startCol)
 				throw MatrixDimensionError("Matrix::block - invalid parameters", _rows, _cols, startRow, startCol);
 			return MatrixViewNew<Type>(&_data[idx(startRow, startCol)], numRows, numCols, _cols);
 		}
@@ -632,7 +632,7 @@ namespace MML
 		MatrixViewNew<const Type> block(int startRow, int startCol, int numRows, int numCols) const
 		{
 			if (startRow < 0 || startCol < 0 || numRows <= 0 || numCols <= 0 ||
-			    startRow + numRows > _rows || startCol + numCols > _cols)
+			    startRow > _rows || numRows > _rows - startRow || startCol > _cols || numCols > _cols - startCol)
 				throw MatrixDimensionError("Matrix::block - invalid parameters", _rows, _cols, startRow, startCol);
 			return MatrixViewNew<const Type>(&_data[idx(startRow, startCol)], numRows, numCols, _cols);
 		}
-- 
2.43.0


From 55457216119708e3e2ba1c94d3c4f18465fc8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 04/95] fix: Matrix::isAntiSymmetric checks the diagonal too
 (M(i,i) must equal -M(i,i))

---
 mml/base/Matrix/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index c671bd8..f0929bc 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -707,7 +707,7 @@ namespace MML
 			if (_rows != _cols) return false;
 			
 			for (int i = 0; i < _rows; ++i) {
-				for (int j = i + 1; j < _cols; ++j) {
+				for (int j = i; j < _cols; ++j) {
 					if (IsMatrixTypeComplex()) {
 						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
 							return false;
-- 
2.43.0


From a2666098e1cd3433b2528174a79ec17874202d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 05/95] fix: Matrix::isDiagonallyDominant returns false for
 non-square matrices instead of reading past the end

---
 mml/base/Matrix/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index f0929bc..07601ff 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -674,6 +674,8 @@ namespace MML
 		/// @return true if |M(i,i)| ≥ Σ_{j≠i} |M(i,j)| for all rows
 		bool isDiagonallyDominant() const
 		{
+			if (_rows != _cols) return false;
+
 			for (int i = 0; i < _rows; ++i) {
 				Real sum{0};  // Use Real for magnitude accumulation
 				for (int j = 0; j < _cols; ++j)
-- 
2.43.0


From 0030e672ff9a9a8cc90d3f2425d6bd9df611e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 06/95] fix: Matrix3D += reads the scalar by value (m +=
 m(i,j,k) used the already shifted element)

---
 mml/base/Matrix/Matrix3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index 3167879..9c09178 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -368,7 +368,7 @@ namespace MML {
 		}
 
 		/// @brief In-place scalar addition.
-		Matrix3D& operator+=(const Type& scalar) {
+		Matrix3D& operator+=(Type scalar) {
 			for (auto& elem : _data) elem += scalar;
 			return *this;
 		}
-- 
2.43.0


From 3aff29a9a495665a862400d8598736b97a92c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 07/95] fix: zero matrix is refused as singular by
 Matrix/MatrixNM inversion and the band solver (threshold is 0 there)

---
 mml/base/Matrix/Matrix.h                | 2 +-
 mml/base/Matrix/MatrixNM.h              | 2 +-
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 07601ff..9b4aa63 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1137,7 +1137,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 				
-				if (Abs(a(icol, icol)) < singularity_threshold)
+				if (Abs(a(icol, icol)) <= singularity_threshold)
 					throw SingularMatrixError("Matrix::Invert - Singular Matrix", Abs(a(icol, icol)));
 				
 				Type pivinv = Type{1} / a(icol, icol);
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 18e5d6e..1056dd7 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -659,7 +659,7 @@ namespace MML {
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (std::abs(a._vals[icol][icol]) < singularity_threshold)
+				if (std::abs(a._vals[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("MatrixNM::Invert, gaussj: Singular Matrix", std::abs(a._vals[icol][icol]));
 
 				pivinv = 1.0 / a._vals[icol][icol];
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..cc3db18 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -738,7 +738,7 @@ namespace MML
 				
 				_indx[k] = i + 1;  // Store 1-based index for compatibility
 				
-				if (Abs(dum) < singularity_threshold)
+				if (Abs(dum) <= singularity_threshold)
 					throw SingularMatrixError("BandDiagonalSolver::ctor - Singular Matrix", Abs(dum));
 				
 				// Interchange rows if necessary
-- 
2.43.0


From 828c90c53faf5882ba644c18dd15e4f22c1ea644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 08/95] fix: triangular/diagonal/Hessenberg predicates use the
 column count (read past the end or ignored columns of non-square matrices)

---
 mml/core/MatrixUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index bf90333..65314ea 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -47,7 +47,7 @@ namespace MML
 		{
 			int n = H.rows();
 			for (int i = 2; i < n; i++)
-				for (int j = 0; j < i - 1; j++)
+				for (int j = 0; j < i - 1 && j < H.cols(); j++)
 					if (std::abs(H(i, j)) > tol)
 						return false;
 			return true;
@@ -65,7 +65,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 1; i < n; i++)
-				for (int j = 0; j < i; j++)
+				for (int j = 0; j < i && j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -83,7 +83,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = i + 1; j < n; j++)
+				for (int j = i + 1; j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -101,7 +101,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = 0; j < n; j++)
+				for (int j = 0; j < A.cols(); j++)
 					if (i != j && std::abs(A(i, j)) > tol)
 						return false;
 			return true;
-- 
2.43.0


From 1e6e76041b8a42fcb5f8018d48eca4ca1336ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 09/95] fix: IsNilpotent recognises the 1x1 zero matrix

---
 mml/core/MatrixUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index 65314ea..045764b 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -307,7 +307,7 @@ namespace MML
 				if (M.isZero())
 					return true;
 			}
-			return false;
+			return M.isZero();
 		}
 
 		/**
-- 
2.43.0


From 7266feb7cdc9678fd220caa9418ea8bed4b3776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:53 +0000
Subject: [PATCH 10/95] fix: iterative linear solvers report the iterations
 performed (maxIter, not maxIter+1) when not converged

---
 mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index 8b748d2..78b54ae 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -202,7 +202,7 @@ namespace MML
 				x = x_new;
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, converged ? iter : maxIter, residual, converged);
 		}
 		
 		/**
@@ -353,7 +353,7 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, converged ? iter : maxIter, residual, converged);
 		}
 		
 		/**
@@ -525,7 +525,7 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, converged ? iter : maxIter, residual, converged);
 		}
 		
 		/**
-- 
2.43.0


From 5d4e47ee5c8feb07d7ace55a93b6ba67f60f9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 11/95] fix: poldiv no longer reads past the dividend when the
 divisor degree exceeds it by more than one

---
 mml/base/Polynom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index f114c3c..ed8e25d 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -420,7 +420,7 @@ namespace MML
 			// setting exact size for remainder
 			rout.SetDegree(nv - 1);
 			for (j = 0; j < nv; j++)
-				rout[j] = r[j];
+				rout[j] = (j <= n) ? r[j] : CoefT(0);
 		}
 
 		///////////////////////////           Operations              ///////////////////////////
-- 
2.43.0


From a79beb8e08523caf04e21a2d4328465e2c0cfab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 12/95] fix: product of two empty (null) polynomials is the
 empty polynomial instead of a length_error

---
 mml/base/Polynom.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index ed8e25d..164b55a 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -316,6 +316,8 @@ namespace MML
 		Polynom operator*(const Polynom& b) const
 		{
 			Polynom result;
+			if (_vecCoef.empty() || b._vecCoef.empty())
+				return result;
 
 			int n = (int)(_vecCoef.size() + b._vecCoef.size() - 1);
 			result._vecCoef.resize(n);
-- 
2.43.0


From 60a4ef461ed90b2afdacd594bec5e9ca115e1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 13/95] fix: Tensor3/4/5 constructors refuse negative index
 counts (wrote before the variance array)

---
 mml/base/Tensor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index 9f80f4c..fac86fb 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -386,7 +386,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -403,7 +403,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar, std::initializer_list<Real> values) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 			
 			for (int i = 0; i < _numCovar; i++)
@@ -584,7 +584,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 4
 		Tensor4(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 4)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 4)
 				throw TensorCovarContravarNumError("Tensor4 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -775,7 +775,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 5
 		Tensor5(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 5)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 5)
 				throw TensorCovarContravarNumError("Tensor5 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
-- 
2.43.0


From 7b84345257ce158a25c1f86df49e6aa7309b5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 14/95] fix: Tensor2 arithmetic keeps the variance of each
 index position (was reset to covariant-first)

---
 mml/base/Tensor.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index fac86fb..1f84ede 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -232,6 +232,8 @@ namespace MML
 			Tensor2 result(_numCovar, _numContravar);
 
 			result._coeff = _coeff + other._coeff;
+			for (int i = 0; i < 2; i++)
+				result._isContravar[i] = _isContravar[i];
 
 			return result;
 		}
@@ -246,6 +248,8 @@ namespace MML
 			Tensor2 result(_numCovar, _numContravar);
 
 			result._coeff = _coeff - other._coeff;
+			for (int i = 0; i < 2; i++)
+				result._isContravar[i] = _isContravar[i];
 
 			return result;
 		}
@@ -256,6 +260,8 @@ namespace MML
 			Tensor2 result(_numCovar, _numContravar);
 
 			result._coeff = _coeff * scalar;
+			for (int i = 0; i < 2; i++)
+				result._isContravar[i] = _isContravar[i];
 
 			return result;
 		}
@@ -266,6 +272,8 @@ namespace MML
 			Tensor2 result(_numCovar, _numContravar);
 
 			result._coeff = _coeff / scalar;
+			for (int i = 0; i < 2; i++)
+				result._isContravar[i] = _isContravar[i];
 
 			return result;
 		}
@@ -276,6 +284,8 @@ namespace MML
 			Tensor2 result(b.NumCovar(), b.NumContravar());
 
 			result._coeff = b._coeff * scalar;
+			for (int i = 0; i < 2; i++)
+				result._isContravar[i] = b._isContravar[i];
 
 			return result;
 		}
-- 
2.43.0


From 3f2758e9434a00e40d70af2350deda71324c3907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:14 +0000
Subject: [PATCH 15/95] fix: interval set operations keep closed and infinite
 endpoints of half-infinite operands (were turned into open ones)

---
 mml/base/Intervals.h | 111 ++++++++++++++-----------------------------
 1 file changed, 35 insertions(+), 76 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..dd3cb20 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -465,6 +465,28 @@ namespace MML {
 	class Interval : public IInterval {
 		Real _lower, _upper;
 		std::vector<std::shared_ptr<BaseInterval>> _intervals; ///< Component intervals
+
+		/// @brief Adds the interval with the given bounds and endpoint types (finite or infinite).
+		void AddByEndpoints(Real lower, EndpointType lowerType, Real upper, EndpointType upperType) {
+			if (lowerType == EndpointType::NEG_INF && upperType == EndpointType::POS_INF)
+				AddInterval(CompleteRInterval());
+			else if (lowerType == EndpointType::NEG_INF && upperType == EndpointType::CLOSED)
+				AddInterval(NegInfToClosedInterval(upper));
+			else if (lowerType == EndpointType::NEG_INF)
+				AddInterval(NegInfToOpenInterval(upper));
+			else if (upperType == EndpointType::POS_INF && lowerType == EndpointType::CLOSED)
+				AddInterval(ClosedToInfInterval(lower));
+			else if (upperType == EndpointType::POS_INF)
+				AddInterval(OpenToInfInterval(lower));
+			else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
+				AddInterval(ClosedInterval(lower, upper));
+			else if (upperType == EndpointType::CLOSED)
+				AddInterval(OpenClosedInterval(lower, upper));
+			else if (lowerType == EndpointType::CLOSED)
+				AddInterval(ClosedOpenInterval(lower, upper));
+			else
+				AddInterval(OpenInterval(lower, upper));
+		}
 	public:
 		/// @brief Constructs an empty composite interval.
 		Interval() {}
@@ -511,7 +533,7 @@ namespace MML {
 			// Determine endpoint types
 			EndpointType lowerType, upperType;
 
-			if (lower == a._lower && lower == b._lower)
+			if (lower == a._lower && lower == b._lower && a._lowerType != b._lowerType)
 				lowerType = (a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::CLOSED) ? EndpointType::CLOSED
 																										   : EndpointType::OPEN;
 			else if (lower == a._lower)
@@ -519,7 +541,7 @@ namespace MML {
 			else
 				lowerType = b._lowerType;
 
-			if (upper == a._upper && upper == b._upper)
+			if (upper == a._upper && upper == b._upper && a._upperType != b._upperType)
 				upperType = (a._upperType == EndpointType::CLOSED && b._upperType == EndpointType::CLOSED) ? EndpointType::CLOSED
 																										   : EndpointType::OPEN;
 			else if (upper == a._upper)
@@ -528,14 +550,7 @@ namespace MML {
 				upperType = b._upperType;
 
 			// Create appropriate interval based on endpoint types
-			if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-				ret.AddInterval(ClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-				ret.AddInterval(OpenClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-				ret.AddInterval(ClosedOpenInterval(lower, upper));
-			else
-				ret.AddInterval(OpenInterval(lower, upper));
+			ret.AddByEndpoints(lower, lowerType, upper, upperType);
 
 			return ret;
 		}
@@ -576,7 +591,7 @@ namespace MML {
 				// Determine endpoint types
 				EndpointType lowerType, upperType;
 
-				if (lower == a._lower && lower == b._lower)
+				if (lower == a._lower && lower == b._lower && a._lowerType != b._lowerType)
 					lowerType = (a._lowerType == EndpointType::CLOSED || b._lowerType == EndpointType::CLOSED) 
 					            ? EndpointType::CLOSED : EndpointType::OPEN;
 				else if (lower == a._lower)
@@ -584,7 +599,7 @@ namespace MML {
 				else
 					lowerType = b._lowerType;
 
-				if (upper == a._upper && upper == b._upper)
+				if (upper == a._upper && upper == b._upper && a._upperType != b._upperType)
 					upperType = (a._upperType == EndpointType::CLOSED || b._upperType == EndpointType::CLOSED) 
 					            ? EndpointType::CLOSED : EndpointType::OPEN;
 				else if (upper == a._upper)
@@ -593,38 +608,17 @@ namespace MML {
 					upperType = b._upperType;
 
 				// Create appropriate interval
-				if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(lower, upper));
-				else
-					ret.AddInterval(OpenInterval(lower, upper));
+				ret.AddByEndpoints(lower, lowerType, upper, upperType);
 			} else {
 				// Disjoint intervals - add both (in order)
 				const BaseInterval* first = (a._lower < b._lower) ? &a : &b;
 				const BaseInterval* second = (a._lower < b._lower) ? &b : &a;
 
 				// Add first interval
-				if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::OPEN && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(first->_lower, first->_upper));
-				else
-					ret.AddInterval(OpenInterval(first->_lower, first->_upper));
+				ret.AddByEndpoints(first->_lower, first->_lowerType, first->_upper, first->_upperType);
 
 				// Add second interval
-				if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::OPEN && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(second->_lower, second->_upper));
-				else
-					ret.AddInterval(OpenInterval(second->_lower, second->_upper));
+				ret.AddByEndpoints(second->_lower, second->_lowerType, second->_upper, second->_upperType);
 			}
 
 			return ret;
@@ -645,14 +639,7 @@ namespace MML {
 			// If b doesn't intersect a, return a
 			if (b._upper <= a._lower || b._lower >= a._upper) {
 				// Return copy of a based on its endpoint types
-				if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, a._upper));
-				else
-					ret.AddInterval(OpenInterval(a._lower, a._upper));
+				ret.AddByEndpoints(a._lower, a._lowerType, a._upper, a._upperType);
 				return ret;
 			}
 
@@ -663,50 +650,22 @@ namespace MML {
 			// Case: b cuts left part of a
 			if (b._lower <= a._lower && b._upper < a._upper) {
 				EndpointType newLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
+				ret.AddByEndpoints(b._upper, newLowerType, a._upper, a._upperType);
 			}
 			// Case: b cuts right part of a
 			else if (b._lower > a._lower && b._upper >= a._upper) {
 				EndpointType newUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
+				ret.AddByEndpoints(a._lower, a._lowerType, b._lower, newUpperType);
 			}
 			// Case: b is completely inside a (splits a into two intervals)
 			else {
 				// Left part: [a.lower, b.lower)
 				EndpointType leftUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
+				ret.AddByEndpoints(a._lower, a._lowerType, b._lower, leftUpperType);
 
 				// Right part: (b.upper, a.upper]
 				EndpointType rightLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
+				ret.AddByEndpoints(b._upper, rightLowerType, a._upper, a._upperType);
 			}
 
 			return ret;
-- 
2.43.0


From 8e7fede99d27a424be8db252b54626dcaa4bd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 16/95] fix: Interval::Difference handles coinciding
 open/closed endpoints (kept or dropped the wrong boundary points)

---
 mml/base/Intervals.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index dd3cb20..9dcf4ca 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -638,14 +638,25 @@ namespace MML {
 
 			// If b doesn't intersect a, return a
 			if (b._upper <= a._lower || b._lower >= a._upper) {
-				// Return copy of a based on its endpoint types
-				ret.AddByEndpoints(a._lower, a._lowerType, a._upper, a._upperType);
+				// Return copy of a based on its endpoint types (a shared closed endpoint is removed)
+				EndpointType lowerType = a._lowerType, upperType = a._upperType;
+				if (b._upper == a._lower && b._upperType == EndpointType::CLOSED)
+					lowerType = EndpointType::OPEN;
+				if (b._lower == a._upper && b._lowerType == EndpointType::CLOSED)
+					upperType = EndpointType::OPEN;
+				ret.AddByEndpoints(a._lower, lowerType, a._upper, upperType);
 				return ret;
 			}
 
+			// A closed endpoint of a survives where b has an open endpoint
+			if (b._lower == a._lower && a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::OPEN)
+				ret.AddInterval(ClosedInterval(a._lower, a._lower));
+			if (b._upper == a._upper && a._upperType == EndpointType::CLOSED && b._upperType == EndpointType::OPEN)
+				ret.AddInterval(ClosedInterval(a._upper, a._upper));
+
 			// Case: b completely contains a
 			if (b._lower <= a._lower && b._upper >= a._upper)
-				return ret; // Empty set
+				return ret; // Empty set, except for surviving endpoints
 
 			// Case: b cuts left part of a
 			if (b._lower <= a._lower && b._upper < a._upper) {
-- 
2.43.0


From 10e585133f3a848fdf9e362c2d90e7502695b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 17/95] fix: Interval::intersects is false for intervals that
 only touch at an excluded endpoint

---
 mml/base/Intervals.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index 9dcf4ca..154b924 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -790,6 +790,13 @@ namespace MML {
 			// Check if any of our intervals intersect with 'other'
 			for (const auto& interval : _intervals) {
 				// Two intervals intersect if one contains a point from the other
+				// (a shared bound counts only if both intervals include it)
+				if (interval->getLowerBound() == other.getUpperBound() &&
+					(interval->_lowerType != EndpointType::CLOSED || other._upperType != EndpointType::CLOSED))
+					continue;
+				if (interval->getUpperBound() == other.getLowerBound() &&
+					(interval->_upperType != EndpointType::CLOSED || other._lowerType != EndpointType::CLOSED))
+					continue;
 				if (interval->getLowerBound() <= other.getUpperBound() && interval->getUpperBound() >= other.getLowerBound())
 					return true;
 			}
-- 
2.43.0


From 896f9895c65746a2b7bbc823fd978d9a011657ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 18/95] fix: SegmentLine2D::Intersection no longer reports a
 degenerate segment off the line as intersecting

---
 mml/base/Geometry/Geometry2DCore/Geometry2DLines.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
index 2a61cd1..ab0717d 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
@@ -374,7 +374,8 @@ namespace MML
 			}
 
 			// Check for collinearity
-			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON);
+			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON &&
+			                  std::abs(d3) <= EPSILON && std::abs(d4) <= EPSILON);
 
 			if (collinear) {
 				bool p2_on_seg1 = OnSegment(p1, p2, q1);
-- 
2.43.0


From 14b2e2cc61c5325021fa5f673ef49ccfac44631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 19/95] fix: Parallelogram::FromDiagonals computes the side
 angle from the full diagonal (was a quarter of its square)

---
 mml/base/Geometry/GeometryCore/Geometry2DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
index f3394ff..3851946 100644
--- a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
@@ -481,7 +481,7 @@ namespace MML {
 			// Diagonals bisect each other; use parallelogram law
 			Real a = 0.5 * sqrt(p * p + q * q + 2 * p * q * cos(angleBetween));
 			Real b = 0.5 * sqrt(p * p + q * q - 2 * p * q * cos(angleBetween));
-			Real angle = acos((a * a + b * b - 0.25 * p * p) / (2 * a * b));
+			Real angle = acos((a * a + b * b - p * p) / (2 * a * b));
 			return Parallelogram(a, b, angle);
 		}
 	};
-- 
2.43.0


From d09b84fa53cb98df39bdb3a71f22b6e10defa4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 20/95] fix: Line3D::IsPerpendicular no longer accepts every
 pair of lines at an obtuse angle

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 606f7b1..7dfd05a 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -145,7 +145,7 @@ namespace MML
 		/// @brief Tests if this line is perpendicular to another line
 		bool IsPerpendicular(const Line3D& b, Real eps = Defaults::Line3DIsPerpendicularTolerance) const
 		{
-			return ScalarProduct(Direction(), b.Direction()) < eps;
+			return std::abs(ScalarProduct(Direction(), b.Direction())) < eps;
 		}
 		
 		/// @brief Tests if this line is parallel to another line
-- 
2.43.0


From e6b829517633e010150ff90d98d1e4461b8ed54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 21/95] fix: Line3D::Dist of parallel lines is the
 perpendicular distance, not the offset along the lines

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 7dfd05a..163d881 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -226,7 +226,7 @@ namespace MML
 			if (n.isZero())
 			{
 				// parallel lines
-				return Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				return VectorProduct(Vec3Cart(p1, p2), d1).NormL2() / d1.NormL2();
 			}
 			else
 			{
@@ -255,7 +255,7 @@ namespace MML
 
 			if (n.isZero())				// check for parallel lines
 			{
-				out_dist = Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				out_dist = VectorProduct(Vec3Cart(p1, p2), d1).NormL2() / d1.NormL2();
 				return false;
 			}
 			else
-- 
2.43.0


From f2486271a60c7233de3e60a4b9ff2fb9808e945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 22/95] fix: Plane3D::IntersectionWithPlane returns a line on
 both planes (point had the wrong sign)

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index d00d81c..0742b91 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -281,12 +281,12 @@ namespace MML
 			}
 
 			// Solve for a point on the intersection line:
-			// x = ( (d2 n1 - d1 n2) x (n1 x n2) ) / |n1 x n2|^2
+			// x = ( (d1 n2 - d2 n1) x (n1 x n2) ) / |n1 x n2|^2
 			double d1 = -D();
 			double d2 = -plane.D();
 
 			Vec3Cart n1xn2 = dir;
-			Vec3Cart p = VectorProduct((d2 * n1 - d1 * n2), n1xn2) / POW2(n1xn2.NormL2());
+			Vec3Cart p = VectorProduct((d1 * n2 - d2 * n1), n1xn2) / POW2(n1xn2.NormL2());
 
 			out_inter_line = Line3D(Pnt3Cart(p.X(), p.Y(), p.Z()), dir.GetAsUnitVector());
 			return true;
-- 
2.43.0


From 96f4111d6a2840491118cc9c3f84d45556bc9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 23/95] fix: Pyramid3D surfaces bound the pyramid (base at z =
 0 and at the given center, not sunk by a/2 at the origin)

---
 .../Geometry3DSpherePyramid.h                 | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index b9c41a2..e19b0bd 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -198,14 +198,22 @@ namespace MML {
 		/// @param h Height (apex at z = h)
 
 		Pyramid3D(Real a, Real h)
+			: Pyramid3D(a, h, Vec3Cart(0, 0, 0)) {}
+
+		/// @brief Construct pyramid with base centered at specified point.
+		/// @param a Base side length
+		/// @param h Height
+		/// @param center Base center point
+
+		Pyramid3D(Real a, Real h, const Vec3Cart& center)
 			: _a(a)
 			, _h(h)
-			, _center(0, 0, 0) {
-			Pnt3Cart pnt1(a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt2(a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt3(-a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt4(-a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt5(0, 0, h); // apex
+			, _center(center) {
+			Pnt3Cart pnt1(center.X() + a / 2, center.Y() - a / 2, center.Z());
+			Pnt3Cart pnt2(center.X() + a / 2, center.Y() + a / 2, center.Z());
+			Pnt3Cart pnt3(center.X() - a / 2, center.Y() + a / 2, center.Z());
+			Pnt3Cart pnt4(center.X() - a / 2, center.Y() - a / 2, center.Z());
+			Pnt3Cart pnt5(center.X(), center.Y(), center.Z() + h); // apex
 
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt4, pnt3)); // base triangle 1
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt3, pnt2)); // base triangle 2
@@ -214,16 +222,6 @@ namespace MML {
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt3, pnt4)); // back face
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt4, pnt1)); // left face
 		}
-
-		/// @brief Construct pyramid with base centered at specified point.
-		/// @param a Base side length
-		/// @param h Height
-		/// @param center Base center point
-
-		Pyramid3D(Real a, Real h, const Vec3Cart& center)
-			: Pyramid3D(a, h) {
-			_center = center;
-		}
 		/// @}
 
 		/// @name Containment Test
-- 
2.43.0


From d43590f256faff2ee38a79c8befd3d23b3555c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 24/95] fix: Tetrahedron::Volume used the wrong face products
 for non-regular tetrahedra

---
 mml/base/Geometry/GeometryCore/Geometry3DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index 5f31b49..f111ee0 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -241,7 +241,7 @@ namespace MML {
 			Real term1 = a2 * f2 * (b2 + c2 + d2 + e2 - a2 - f2);
 			Real term2 = b2 * e2 * (a2 + c2 + d2 + f2 - b2 - e2);
 			Real term3 = c2 * d2 * (a2 + b2 + e2 + f2 - c2 - d2);
-			Real term4 = -a2 * b2 * f2 - a2 * c2 * e2 - b2 * c2 * d2;
+			Real term4 = -a2 * b2 * d2 - a2 * c2 * e2 - b2 * c2 * f2;
 			Real term5 = -d2 * e2 * f2;
 
 			Real det = term1 + term2 + term3 + term4 + term5;
-- 
2.43.0


From 27d9841f160fa981a093a751f099ea15c5baddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 25/95] fix: Plane3D::IsParallelToPlane recognises parallel
 planes with opposite normals (DistToPlane returned 0)

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index 0742b91..5e43db3 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -232,7 +232,7 @@ namespace MML
 			Vec3Cart norm1(_A, _B, _C);
 			Vec3Cart norm2(plane._A, plane._B, plane._C);
 
-			return norm1.IsParallelTo(norm2);
+			return norm1.IsParallelTo(norm2) || norm1.IsParallelTo(-norm2);
 		}
 		
 		/// @brief Tests if this plane is perpendicular to another plane
-- 
2.43.0


From 6707860ca8b32f6614210362336e0adfcfdbaea3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 26/95] fix: interpolation tables refuse abscissas and
 ordinates of different length

---
 mml/base/InterpolatedFunctions/InterpolatedRealFunction.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..14d0c23 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -67,7 +67,7 @@ namespace MML {
 			, _numPoints(x.size())
 			, _usedPoints(usedPointsInInterpolation) {
 			// throw if not enough points
-			if (_numPoints < 2 || _usedPoints < 2 || _usedPoints > _numPoints)
+			if (_numPoints < 2 || _usedPoints < 2 || _usedPoints > _numPoints || _y.size() != _numPoints)
 				throw RealFuncInterpInitError("RealFunctionInterpolated size error");
 			// Check for duplicate x-values (causes division by zero in interpolation)
 			for (int i = 0; i < _numPoints; i++)
@@ -725,6 +725,8 @@ namespace MML {
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d too large for number of points");
 			if (_d < 0)
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d must be non-negative");
+			if (_y.size() != _n)
+				throw RealFuncInterpInitError("BarycentricRationalInterp: number of ordinates must match number of abscissas");
 			computeWeights();
 		}
 
-- 
2.43.0


From d1f66e78e3d47a85426d1364efd8fb8ff55dc42b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 27/95] fix: linear interpolation and spline integration over
 descending abscissas

---
 .../InterpolatedRealFunction.h                      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index 14d0c23..c54d2e4 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -92,11 +92,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value in the data. */
 
-		inline Real MinX() const { return X(0); }
+		inline Real MinX() const { return std::min(X(0), X(_numPoints - 1)); }
 
 		/// /** @brief Get the maximum x-value in the data. */
 
-		inline Real MaxX() const { return X(_numPoints - 1); }
+		inline Real MaxX() const { return std::max(X(0), X(_numPoints - 1)); }
 
 		/// @}
 
@@ -527,13 +527,20 @@ namespace MML {
 			if (iLow == iHigh) {
 				// Both endpoints in same segment
 				integral = integrateSegment(iLow, a, b);
-			} else {
+			} else if (iLow < iHigh) {
 				// Multiple segments
 				integral += integrateSegment(iLow, a, X(iLow + 1));
 				for (int i = iLow + 1; i < iHigh; i++) {
 					integral += integrateSegment(i, X(i), X(i + 1));
 				}
 				integral += integrateSegment(iHigh, X(iHigh), b);
+			} else {
+				// Multiple segments, descending abscissas
+				integral += integrateSegment(iLow, a, X(iLow));
+				for (int i = iLow - 1; i > iHigh; i--) {
+					integral += integrateSegment(i, X(i + 1), X(i));
+				}
+				integral += integrateSegment(iHigh, X(iHigh + 1), b);
 			}
 
 			return integral;
-- 
2.43.0


From 55a30c5c7b968aa331260517dcdee33954d53684 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 28/95] fix: closed spline curve wraps its parameter after
 mapping it to [0, 1]

---
 .../InterpolatedFunctions/InterpolationParametricCurve.h    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..58fa688 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -256,11 +256,11 @@ namespace MML {
 
 			VectorN<Real, N> ans;
 
-			if (_isCurveClosed)
-				t = t - floor(t);
-
 			// we have to map t from [minT, maxT] to [0, 1]
 			t = (t - _minT) / (_maxT - _minT);
+
+			if (_isCurveClosed)
+				t = t - floor(t);
 			for (int j = 0; j < _dim; j++)
 				ans[j] = (*srp[j])(t);
 
-- 
2.43.0


From fd7e480c63d61f75d55c8936b5c1b7c260ea67ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 29/95] fix: closed linear curve includes the segment back to
 its first point

---
 .../InterpolationParametricCurve.h                   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 58fa688..166f412 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -72,20 +72,20 @@ namespace MML {
 		LinInterpParametricCurve(const Matrix<Real>& ptsin, bool close = false)
 			: _numPoints(ptsin.rows())
 			, _curvePoints(ptsin)
-			, _arcLen(_numPoints)
+			, _arcLen(close ? _numPoints + 1 : _numPoints)
 			, _isCurveClosed(close) {
 			// Compute normalized arc length parameterization
 			_arcLen[0] = 0.0;
 			Real totalLen = 0.0;
-			for (int i = 1; i < _numPoints; ++i) {
+			for (int i = 1; i < _arcLen.size(); ++i) {
 				Real segLen = 0.0;
 				for (int j = 0; j < N; ++j)
-					segLen += std::pow(_curvePoints[i][j] - _curvePoints[i - 1][j], 2);
+					segLen += std::pow(_curvePoints[i % _numPoints][j] - _curvePoints[i - 1][j], 2);
 				totalLen += std::sqrt(segLen);
 				_arcLen[i] = totalLen;
 			}
 			// Normalize to [0,1]
-			for (int i = 0; i < _numPoints; ++i)
+			for (int i = 0; i < _arcLen.size(); ++i)
 				_arcLen[i] /= totalLen > 0 ? totalLen : 1.0;
 		}
 
@@ -116,7 +116,7 @@ namespace MML {
 
 			// Find segment
 			int i = 0;
-			while (i < _numPoints - 2 && t > _arcLen[i + 1])
+			while (i < _arcLen.size() - 2 && t > _arcLen[i + 1])
 				++i;
 
 			// Linear interpolation
@@ -125,7 +125,7 @@ namespace MML {
 
 			VectorN<Real, N> result;
 			for (int j = 0; j < N; ++j)
-				result[j] = (1 - alpha) * _curvePoints[i][j] + alpha * _curvePoints[i + 1][j];
+				result[j] = (1 - alpha) * _curvePoints[i][j] + alpha * _curvePoints[(i + 1) % _numPoints][j];
 			return result;
 		}
 	};
-- 
2.43.0


From 8a5d097f90c3be6b0a09ae3ec713476d02d04e5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 30/95] fix: polygon clipping accepts clockwise clip regions

---
 mml/algorithms/CompGeometry/PolygonOps.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/CompGeometry/PolygonOps.h b/mml/algorithms/CompGeometry/PolygonOps.h
index 2b46b9e..3a47441 100644
--- a/mml/algorithms/CompGeometry/PolygonOps.h
+++ b/mml/algorithms/CompGeometry/PolygonOps.h
@@ -48,13 +48,15 @@ public:
 
 		std::vector<Point2Cartesian> output = subject.Vertices();
 
+		// ClipAgainstEdge keeps the left side, so walk the clip region counterclockwise
 		int clipN = clipRegion.NumVertices();
+		const bool ccw = clipRegion.SignedArea() >= 0.0;
 		for (int i = 0; i < clipN; i++) {
 			if (output.empty())
 				break;
 
-			const Point2Cartesian& edgeStart = clipRegion[i];
-			const Point2Cartesian& edgeEnd = clipRegion[(i + 1) % clipN];
+			const Point2Cartesian& edgeStart = clipRegion[ccw ? i : (clipN - i) % clipN];
+			const Point2Cartesian& edgeEnd = clipRegion[ccw ? (i + 1) % clipN : clipN - 1 - i];
 
 			output = ClipAgainstEdge(output, edgeStart, edgeEnd);
 		}
-- 
2.43.0


From ae465d992f9a6162a52d16416b8f8bb8dcdaa187 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 31/95] fix: integral of a constant Chebyshev approximation

---
 mml/algorithms/ChebyshevApproximation.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 3dcd898..a8f7587 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -313,11 +313,20 @@ namespace MML {
 		ChebyshevApproximation Integral() const {
 			int n = static_cast<int>(_coef.size());
 
-			Vector<Real> cint(n);
 			Real sum = 0.0;
 			Real fac = 1.0;
 			Real con = 0.25 * (_b - _a);
 
+			// A constant integrates to a linear function, which needs two coefficients
+			if (n == 1) {
+				Vector<Real> lin(2);
+				lin[1] = con * _coef[0];
+				lin[0] = 2.0 * lin[1];
+				return ChebyshevApproximation(lin, _a, _b);
+			}
+
+			Vector<Real> cint(n);
+
 			for (int j = 1; j < n - 1; j++) {
 				cint[j] = con * (_coef[j - 1] - _coef[j + 1]) / j;
 				sum += fac * cint[j];
-- 
2.43.0


From 81482235d85b119ebe8ff77f19f3f80f7a0ec874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 32/95] fix: Laplacian of a graph with self-loops is D - A

---
 mml/base/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..c65db7b 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -433,10 +433,10 @@ namespace MML
 				E deg = E{0};
 				for (const auto& edge : _adjList[i])
 				{
-					L(i, edge.to) = -edge.weight;  // Off-diagonal: -weight
+					L(i, edge.to) = -edge.weight;  // Off-diagonal (and self-loop): -weight
 					deg += edge.weight;
 				}
-				L(i, i) = deg;  // Diagonal: sum of weights
+				L(i, i) += deg;  // Diagonal: sum of weights (less a self-loop)
 			}
 
 			return L;
-- 
2.43.0


From c60414395cb90c68ec0213fb06434eeffafeddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 33/95] fix: path and cycle graphs without vertices

---
 mml/base/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index c65db7b..baf5301 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -535,7 +535,7 @@ namespace MML
 	Graph<V, E> createPathGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		return g;
 	}
@@ -545,7 +545,7 @@ namespace MML
 	Graph<V, E> createCycleGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		if (n > 2)
 			g.addEdge(n - 1, 0, E{1});
-- 
2.43.0


From d77f77dd1b7803c733f70a6c8fff6dde2116a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 34/95] fix: HasNegativeCycle reports no cycle for a start
 vertex that does not exist

---
 mml/algorithms/GraphAlgorithms.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/algorithms/GraphAlgorithms.h b/mml/algorithms/GraphAlgorithms.h
index a25d14e..e359bf3 100644
--- a/mml/algorithms/GraphAlgorithms.h
+++ b/mml/algorithms/GraphAlgorithms.h
@@ -561,6 +561,9 @@ namespace MML
 	template<typename V, typename E>
 	bool HasNegativeCycle(const Graph<V, E>& graph, size_t start)
 	{
+		if (start >= graph.numVertices())
+			return false;
+
 		auto result = BellmanFord(graph, start);
 		return result.parent.empty();  // Empty if negative cycle found
 	}
-- 
2.43.0


From 6cd8770900de6fdcf10a5ed35c9f5bfe467d8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 35/95] fix: average path length of a directed graph covers
 both directions of every pair

---
 mml/algorithms/GraphSpectral.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 9248098..aa4c2c5 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -564,9 +564,9 @@ namespace MML
 		{
 			auto bfsResult = BFS(graph, v);
 
-			for (size_t u = v + 1; u < n; ++u)
+			for (size_t u = graph.isUndirected() ? v + 1 : 0; u < n; ++u)
 			{
-				if (bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
+				if (u != v && bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
 				{
 					totalLength += bfsResult.distance[u];
 					++pathCount;
-- 
2.43.0


From 2eefa3b8c6839a6c232738937671a49e434e14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 36/95] fix: AlgebraicConnectivityBound is a lower bound
 (minimum degree may exceed the edge connectivity)

---
 mml/algorithms/GraphSpectral.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index aa4c2c5..afa1db5 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -128,16 +128,15 @@ namespace MML
 		if (components.numComponents > 1)
 			return 0;
 
-		// Use Cheeger-like bound: lambda_2 >= 2 * (1 - cos(pi/n)) * min_degree
-		Real minDegree = std::numeric_limits<Real>::max();
+		// Fiedler's bound: lambda_2 >= 2 * (1 - cos(pi/n)) * edge_connectivity, and every cut of
+		// a connected graph weighs at least as much as its lightest edge
+		Real minWeight = std::numeric_limits<Real>::max();
 		for (size_t v = 0; v < n; ++v)
-		{
-			Real d = static_cast<Real>(graph.degree(v));
-			if (d < minDegree)
-				minDegree = d;
-		}
+			for (const auto& edge : graph.neighbors(v))
+				if (edge.to != v && static_cast<Real>(edge.weight) < minWeight)
+					minWeight = static_cast<Real>(edge.weight);
 
-		return minDegree > 0 ? 2.0 * (1.0 - std::cos(Constants::PI / n)) * minDegree : 0;
+		return minWeight > 0 ? 2.0 * (1.0 - std::cos(Constants::PI / n)) * minWeight : 0;
 	}
 
 	/// Check if graph is connected using spectral method
-- 
2.43.0


From 7ba10d2a3473a89451c4620506bf70c90cc2bc0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 37/95] fix: error estimates of the second and third derivative
 formulas match their truncation error

---
 mml/core/Derivation/DerivationParametricCurve.h | 12 ++++++------
 mml/core/Derivation/DerivationRealFunction.h    | 12 ++++++------
 mml/core/Derivation/DerivationScalarFunction.h  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mml/core/Derivation/DerivationParametricCurve.h b/mml/core/Derivation/DerivationParametricCurve.h
index fcf6a99..4ed4909 100644
--- a/mml/core/Derivation/DerivationParametricCurve.h
+++ b/mml/core/Derivation/DerivationParametricCurve.h
@@ -191,7 +191,7 @@ namespace MML
 				VectorN<Real, N> ym2h = f(t - 2*h);
 				Real f4_approx = (ym2h - 4.0*ymh + 6.0*y0 - 4.0*yh + y2h).NormL2() / h2;
 				
-				*error = f4_approx * h2 / 12.0 + 
+				*error = f4_approx / 12.0 + 
 				         Constants::Eps * (ymh.NormL2() + 2*y0.NormL2() + yh.NormL2()) / h2;
 			}
 			
@@ -224,7 +224,7 @@ namespace MML
 				VectorN<Real, N> ym3h = f(t - 3*h);
 				Real f6_approx = (ym3h - 6.0*ym2h + 15.0*ymh - 20.0*y0 + 15.0*yh - 6.0*y2h + y3h).NormL2() / h2;
 				
-				*error = f6_approx * h2 * h2 / 90.0 + 
+				*error = f6_approx / 90.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 16*ymh.NormL2() + 30*y0.NormL2() + 
 				                           16*yh.NormL2() + y2h.NormL2()) / (12.0 * h2);
 			}
@@ -262,9 +262,9 @@ namespace MML
 				// Error estimate using 5th derivative approximation
 				VectorN<Real, N> y3h = f(t + 3*h);
 				VectorN<Real, N> ym3h = f(t - 3*h);
-				Real f5_approx = (ym3h - 3.0*ym2h + 5.0*ymh - 5.0*yh + 3.0*y2h - y3h).NormL2() / h3;
+				Real f5_approx = (y3h - ym3h - 4.0*(y2h - ym2h) + 5.0*(yh - ymh)).NormL2() / (2.0 * h3);
 				
-				*error = f5_approx * h * h / 4.0 + 
+				*error = f5_approx / 4.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 2*ymh.NormL2() + 2*yh.NormL2() + y2h.NormL2()) / (2.0 * h3);
 			}
 			
@@ -297,9 +297,9 @@ namespace MML
 				// Error estimate using 7th derivative approximation
 				VectorN<Real, N> y4h = f(t + 4*h);
 				VectorN<Real, N> ym4h = f(t - 4*h);
-				Real f7_approx = (ym4h - 4.0*ym3h + 9.0*ym2h - 13.0*ymh + 13.0*yh - 9.0*y2h + 4.0*y3h - y4h).NormL2() / h3;
+				Real f7_approx = (y4h - ym4h - 6.0*(y3h - ym3h) + 14.0*(y2h - ym2h) - 14.0*(yh - ymh)).NormL2() / (2.0 * h3);
 				
-				*error = f7_approx * h * h * h * h / 120.0 + 
+				*error = 7 * f7_approx / 120.0 + 
 				         Constants::Eps * (ym3h.NormL2() + 8*ym2h.NormL2() + 13*ymh.NormL2() + 
 				                           13*yh.NormL2() + 8*y2h.NormL2() + y3h.NormL2()) / (8.0 * h3);
 			}
diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 75c32ad..7ac7519 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -382,7 +382,7 @@ namespace MML
 						Real y2h = f(x + 2 * h);
 						Real ym2h = f(x - 2 * h);
 						Real f4_approx = std::abs(ym2h - 4 * ymh + 6 * y0 - 4 * yh + y2h) / h2;
-						*error = f4_approx * h2 / 12.0 +
+						*error = f4_approx / 12.0 +
 						         Constants::Eps * (std::abs(ymh) + 2 * std::abs(y0) + std::abs(yh)) / h2;
 					}
 
@@ -429,7 +429,7 @@ namespace MML
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
 						Real f6_approx = std::abs(ym3h - 6 * ym2h + 15 * ymh - 20 * y0 + 15 * yh - 6 * y2h + y3h) / h2;
-						*error = f6_approx * h2 * h2 / 90.0 +
+						*error = f6_approx / 90.0 +
 						         Constants::Eps * (std::abs(ym2h) + 16 * std::abs(ymh) + 30 * std::abs(y0) +
 						                           16 * std::abs(yh) + std::abs(y2h)) / (12.0 * h2);
 					}
@@ -482,8 +482,8 @@ namespace MML
 					{
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
-						Real f5_approx = std::abs(ym3h - 3 * ym2h + 5 * ymh - 5 * yh + 3 * y2h - y3h) / h3;
-						*error = f5_approx * h * h / 4.0 +
+						Real f5_approx = std::abs(y3h - ym3h - 4 * (y2h - ym2h) + 5 * (yh - ymh)) / (2 * h3);
+						*error = f5_approx / 4.0 +
 						         Constants::Eps * (std::abs(ym2h) + 2 * std::abs(ymh) + 2 * std::abs(yh) + std::abs(y2h)) / (2.0 * h3);
 					}
 
@@ -530,8 +530,8 @@ namespace MML
 					{
 						Real y4h = f(x + 4 * h);
 						Real ym4h = f(x - 4 * h);
-						Real f7_approx = std::abs(ym4h - 4 * ym3h + 9 * ym2h - 13 * ymh + 13 * yh - 9 * y2h + 4 * y3h - y4h) / h3;
-						*error = f7_approx * h * h * h * h / 120.0 +
+						Real f7_approx = std::abs(y4h - ym4h - 6 * (y3h - ym3h) + 14 * (y2h - ym2h) - 14 * (yh - ymh)) / (2 * h3);
+						*error = 7 * f7_approx / 120.0 +
 						         Constants::Eps * (std::abs(ym3h) + 8 * std::abs(ym2h) + 13 * std::abs(ymh) +
 						                           13 * std::abs(yh) + 8 * std::abs(y2h) + std::abs(y3h)) / (8.0 * h3);
 					}
diff --git a/mml/core/Derivation/DerivationScalarFunction.h b/mml/core/Derivation/DerivationScalarFunction.h
index 81181b1..072dbee 100644
--- a/mml/core/Derivation/DerivationScalarFunction.h
+++ b/mml/core/Derivation/DerivationScalarFunction.h
@@ -449,7 +449,7 @@ namespace MML
 					x_2minus[der_ind1] = point[der_ind1] - 2*h;
 					
 					Real f4_approx = std::abs(f(x_2minus) - 4.0*fmh + 6.0*f0 - 4.0*fh + f(x_2plus)) / h2;
-					*error = f4_approx * h2 / 12.0 + 
+					*error = f4_approx / 12.0 + 
 					         Constants::Eps * (std::abs(fmh) + 2*std::abs(f0) + std::abs(fh)) / h2;
 				}
 				
@@ -542,7 +542,7 @@ namespace MML
 					Real fm3h = f(x);
 					
 					Real f6_approx = std::abs(fm3h - 6.0*fm2h + 15.0*fmh - 20.0*f0 + 15.0*fh - 6.0*f2h + f3h) / h2;
-					*error = f6_approx * h2 * h2 / 90.0 + 
+					*error = f6_approx / 90.0 + 
 					         Constants::Eps * (std::abs(fm2h) + 16*std::abs(fmh) + 30*std::abs(f0) + 
 					                           16*std::abs(fh) + std::abs(f2h)) / (12.0 * h2);
 				}
-- 
2.43.0


From 81683897bf10363ab9ad6cdb45af0fa500cf2efa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 38/95] fix: error estimate of the curve NDer4 is the norm of
 the fifth difference

---
 mml/core/Derivation/DerivationParametricCurve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Derivation/DerivationParametricCurve.h b/mml/core/Derivation/DerivationParametricCurve.h
index 4ed4909..5c045d3 100644
--- a/mml/core/Derivation/DerivationParametricCurve.h
+++ b/mml/core/Derivation/DerivationParametricCurve.h
@@ -96,7 +96,7 @@ namespace MML
 				VectorN<Real, N> y3h = f(t + 3 * h);
 				VectorN<Real, N> ym3h = f(t - 3 * h);
 
-				*error = std::abs((y3h - ym3h).NormL2() / 2 + 2 * (ym2h - y2h).NormL2() + 5 * (yh - ymh).NormL2() / 2) / (30 * h);
+				*error = ((y3h - ym3h) / 2 + 2 * (ym2h - y2h) + 5 * (yh - ymh) / 2).NormL2() / (30 * h);
 				*error += Constants::Eps * (y2h.NormL2() + ym2h.NormL2() + 8 * (ymh.NormL2() + yh.NormL2())) / (12 * h);
 			}
 			return (y2 + 8 * y1) / (12 * h);
-- 
2.43.0


From 9ca20fedef94258fb65f9e1ecd08fd5915408bc6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 39/95] fix: NDer1Right estimates its error without sampling to
 the left of x

---
 mml/core/Derivation/DerivationRealFunction.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 7ac7519..026aeda 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -133,14 +133,24 @@ namespace MML
 			return NDer1(f, x, ScaleStep(NDer1_h, x), nullptr);
 		}
 		
-		static Real NDer1Left(const IRealFunction& f, Real x, Real* error = nullptr) 
-		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x - h, h, error); }
-		static Real NDer1Right(const IRealFunction& f, Real x, Real* error = nullptr) 
-		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x, h, error); }
 		static Real NDer1Left(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
 		{ return NDer1(f, x - h, h, error); }
 		static Real NDer1Right(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
-		{ return NDer1(f, x, h, error); }
+		{
+			// the error stencil of NDer1 is central: here it has to stay on the right of x as well
+			Real value = NDer1(f, x, h);
+			if (error)
+			{
+				Real y0 = f(x);
+				Real yh = f(x + h);
+				*error = std::abs(f(x + 2 * h) - 2 * yh + y0) / (2 * h) + (std::abs(yh) + std::abs(y0)) * Constants::Eps / h;
+			}
+			return value;
+		}
+		static Real NDer1Left(const IRealFunction& f, Real x, Real* error = nullptr) 
+		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x - h, h, error); }
+		static Real NDer1Right(const IRealFunction& f, Real x, Real* error = nullptr) 
+		{ return NDer1Right(f, x, ScaleStep(NDer1_h, x), error); }
 
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
-- 
2.43.0


From 211fd93dd52b402e5a3a0be93f1961c06b8f5905 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 40/95] fix: calcJacobian of a function R^N -> R^M compiles (it
 called a partial derivative that does not exist)

---
 mml/core/Derivation/Jacobians.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index bf6c4a0..732df58 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -68,11 +68,15 @@ namespace MML
 		{
 			MatrixNM<Real, M, N> jac;
 
-			for (int i = 0; i < M; ++i)
-				for (int j = 0; j < N; ++j)
-				{
-					jac(i, j) = Derivation::NDer4Partial(func, i, j, pos);
-				}
+			for (int j = 0; j < N; ++j)
+			{
+				const Real h = ScaleStep(NDer4_h, pos[j]);
+				auto at = [&](Real step) { VectorN<Real, N> x = pos; x[j] += step; return func(x); };
+				const VectorN<Real, M> yh = at(h), ymh = at(-h), y2h = at(2 * h), ym2h = at(-2 * h);
+
+				for (int i = 0; i < M; ++i)
+					jac(i, j) = (ym2h[i] - y2h[i] + 8 * (yh[i] - ymh[i])) / (12 * h);
+			}
 
 			return jac;
 		}
-- 
2.43.0


From af1a5a9cd7c313933e685e1c7ca31244ee5d2381 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 41/95] fix: default-step partial derivatives of rank 3 and 4
 tensor fields compile

---
 mml/core/Derivation/DerivationTensorField.h | 26 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/mml/core/Derivation/DerivationTensorField.h b/mml/core/Derivation/DerivationTensorField.h
index 59d5fad..e04c3eb 100644
--- a/mml/core/Derivation/DerivationTensorField.h
+++ b/mml/core/Derivation/DerivationTensorField.h
@@ -26,6 +26,20 @@ namespace MML
 {
 	namespace Derivation
 	{
+		// explicit-step overloads, declared ahead of the default-step overloads that call them
+		template <int N>
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+		template <int N>
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+		template <int N>
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+		template <int N>
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+		template <int N>
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+		template <int N>
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of FIRST order                                 ********/
 		/********************************************************************************************************************/
@@ -64,7 +78,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			auto x = point;
 
@@ -92,7 +106,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			auto x = point;
 
@@ -157,7 +171,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
@@ -191,7 +205,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
@@ -269,7 +283,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
@@ -311,7 +325,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
-- 
2.43.0


From 4c632ced3bfde4c305fb2734bd65564278f7266f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:27:36 +0000
Subject: [PATCH 42/95] fix: derivative of the dual power x^0 is zero at x = 0
 (was NaN)

---
 mml/core/Derivation/ForwardAD.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mml/core/Derivation/ForwardAD.h b/mml/core/Derivation/ForwardAD.h
index 5772a61..441d446 100644
--- a/mml/core/Derivation/ForwardAD.h
+++ b/mml/core/Derivation/ForwardAD.h
@@ -188,7 +188,10 @@ namespace MML::Symbolic
     Dual<T> pow(const Dual<T>& base, const Dual<T>& exp) {
         if (exp.deriv == T(0)) {
             // Constant exponent: d/dx(f^n) = n*f^(n-1)*f'
+            // (f^0 is the constant 1, also where f = 0 makes f^(-1) infinite)
             T p = std::pow(base.value, exp.value);
+            if (exp.value == T(0))
+                return Dual<T>(p, T(0));
             return Dual<T>(p, exp.value * std::pow(base.value, exp.value - T(1)) * base.deriv);
         } else if (base.deriv == T(0)) {
             // Constant base: d/dx(a^g) = a^g * ln(a) * g'
@@ -205,6 +208,8 @@ namespace MML::Symbolic
     template<typename T, typename S, typename = std::enable_if_t<std::is_arithmetic_v<S>>>
     Dual<T> pow(const Dual<T>& base, S exp) {
         T p = std::pow(base.value, static_cast<T>(exp));
+        if (exp == S(0))
+            return Dual<T>(p, T(0));
         return Dual<T>(p, static_cast<T>(exp) * std::pow(base.value, static_cast<T>(exp) - T(1)) * base.deriv);
     }
 
-- 
2.43.0


From e0b4235bb5e10a1ddef762fbfd8c81b36643d227 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 43/95] fix: adaptive integration counts the evaluations of
 subdivided cells and can report convergence after subdividing

---
 mml/core/Integration/GaussKronrod.h          | 3 ++-
 mml/core/Integration/Integration2DAdaptive.h | 2 ++
 mml/core/Integration/Integration3DAdaptive.h | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 059364f..01fb42b 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -376,7 +376,8 @@ namespace MML {
 			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
 			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
 
-			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
+			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate,
+											local.function_evals + left.function_evals + right.function_evals,
 											left.converged && right.converged);
 		}
 
diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index 5e3a4e5..8218782 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -274,6 +274,8 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
 
     AdaptiveResult2D result;
     result.cells_subdivided = 1;  // This cell was subdivided
+    result.function_evaluations = cell_result.function_evals;
+    result.converged = true;      // unless a child fails to converge
 
     // Process all 4 children
     result += IntegrateAdaptive2D_Recursive(f, x1, mx, y1, my, total_area, tol_abs, tol_rel, depth+1, max_depth, evals_remaining, rule);
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index d2754cd..8246644 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -285,6 +285,8 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
 
     AdaptiveResult3D result;
     result.cells_subdivided = 1;  // This cell was subdivided
+    result.function_evaluations = cell_result.function_evals;
+    result.converged = true;      // unless a child fails to converge
 
     // Process all 8 children (2×2×2 = 8 octants)
     // Lower z half (z1 to mz)
-- 
2.43.0


From 4a4e6fe83a28afbc22f69440be1f092bb082ede1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 44/95] fix: Monte Carlo integration of a constant never takes
 the square root of a variance made negative by rounding

---
 mml/core/Integration/MonteCarloIntegration.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 4ba2623..558dee4 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -20,6 +20,7 @@
 
 #include <random>
 #include <numeric>
+#include <algorithm>
 #include <cmath>
 
 namespace MML 
@@ -171,7 +172,7 @@ namespace MML
 			// Compute statistics
 			Real mean = sum / n;
 			Real mean_sq = sum_sq / n;
-			Real variance = mean_sq - mean * mean;
+			Real variance = std::max(Real(0), mean_sq - mean * mean);
 
 			// Standard error of the mean
 			Real std_error = std::sqrt(variance / n);
@@ -344,7 +345,7 @@ namespace MML
 			// Compute result
 			Real mean = sum / total_strata;
 			Real mean_sq = sum_sq / total_strata;
-			Real variance = (mean_sq - mean * mean) / total_strata;
+			Real variance = std::max(Real(0), mean_sq - mean * mean) / total_strata;
 			Real std_error = std::sqrt(variance);
 
 			Real integral = volume * mean;
-- 
2.43.0


From 5703b4eb9a78f3e83c19a172a22ea4ec682fedf8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 45/95] fix: root finders report a failure status and the
 algorithm name instead of always Success

---
 .../RootFinding/RootFindingBracketing.h       | 10 ++++++++
 .../RootFinding/RootFindingMethods.h          | 24 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..40e60be 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -260,6 +260,7 @@ namespace MML {
 		static RootFindingResult FindRootBisection(const IRealFunction& func, Real x1, Real x2, 
 												   const RootFindingConfig& config) {
 			RootFindingResult result;
+			result.algorithm_name = "Bisection";
 			Real dx, xmid, rtb;
 
 			Real f = func(x1);
@@ -268,11 +269,13 @@ namespace MML {
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
 				result.error_message = "Non-finite function values in FindRootBisection";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 
 			if (f * fmid >= 0.0) {
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -298,6 +301,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
 					result.error_message = "Non-finite function value in FindRootBisection iteration";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -324,6 +328,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Too many bisections in FindRootBisection";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -400,15 +405,18 @@ namespace MML {
 		static RootFindingResult FindRootFalsePosition(const IRealFunction& func, Real x1, Real x2,
 													   const RootFindingConfig& config) {
 			RootFindingResult result;
+			result.algorithm_name = "FalsePosition";
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootFalsePosition";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
 				result.error_message = "Root must be bracketed for false position";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -430,6 +438,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootFalsePosition";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -461,6 +470,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
 			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..739686f 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -142,11 +142,13 @@ namespace MML {
 		static RootFindingResult FindRootNewton(const IRealFunction& func, Real x1, Real x2,
 												const RootFindingConfig& config) {
 			RootFindingResult result;
+			result.algorithm_name = "Newton";
 
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 			if (f1 * f2 > 0.0) {
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -164,6 +166,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite derivative in FindRootNewton";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 				Real dfThreshold = std::sqrt(Real(Constants::Eps));
@@ -172,6 +175,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Zero or near-zero derivative in FindRootNewton";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -183,6 +187,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite step in FindRootNewton";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -199,6 +204,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
 					result.error_message = "Jumped out of brackets in FindRootNewton";
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					return result;
 				}
 
@@ -217,6 +223,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -297,16 +304,19 @@ namespace MML {
 		static RootFindingResult FindRootSecant(const IRealFunction& func, Real x1, Real x2,
 												const RootFindingConfig& config) {
 			RootFindingResult result;
+			result.algorithm_name = "Secant";
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootSecant";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 
 			if (f1 * f2 > 0.0) {
 				result.error_message = "Root must be bracketed for Secant method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -326,6 +336,7 @@ namespace MML {
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite step in FindRootSecant";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -339,6 +350,7 @@ namespace MML {
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootSecant";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -362,6 +374,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -450,15 +463,18 @@ namespace MML {
 		static RootFindingResult FindRootRidders(const IRealFunction& func, Real x1, Real x2,
 												 const RootFindingConfig& config) {
 			RootFindingResult result;
+			result.algorithm_name = "Ridders";
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootRidders";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
 				result.error_message = "Root must be bracketed for Ridders method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -474,6 +490,7 @@ namespace MML {
 					result.function_value = fm;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootRidders";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -506,6 +523,7 @@ namespace MML {
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootRidders";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -552,6 +570,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
 			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -656,15 +675,18 @@ namespace MML {
 		static RootFindingResult FindRootBrent(const IRealFunction& func, Real x1, Real x2,
 											   const RootFindingConfig& config) {
 			RootFindingResult result;
+			result.algorithm_name = "Brent";
 			Real a = x1, b = x2, c = x2, d = 0.0, e = 0.0;
 			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
 				result.error_message = "Non-finite function values in FindRootBrent";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 			if (fa * fb >= 0.0) {
 				result.error_message = "Root must be bracketed for Brent method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -746,6 +768,7 @@ namespace MML {
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
 					result.error_message = "Non-finite function value in FindRootBrent";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 			}
@@ -755,6 +778,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
 			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
-- 
2.43.0


From 70697a6688f04026dbe4127f8616150cdfbf32b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:15:46 +0000
Subject: [PATCH 46/95] fix: SolveQuadratic returns the double root 0 of a*x^2
 (second root was NaN)

---
 mml/algorithms/RootFinding/RootFindingPolynoms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/RootFinding/RootFindingPolynoms.h b/mml/algorithms/RootFinding/RootFindingPolynoms.h
index 2a6b7e7..3b82361 100644
--- a/mml/algorithms/RootFinding/RootFindingPolynoms.h
+++ b/mml/algorithms/RootFinding/RootFindingPolynoms.h
@@ -54,7 +54,7 @@ namespace MML {
       Real sqrtD = std::sqrt(D);
       Real q = Real(-0.5) * (b + std::copysign(sqrtD, b));
       x1 = q / a;
-      x2 = c / q;
+      x2 = (q != 0) ? Complex(c / q) : x1; // q = 0 only for the double root 0
       return 2;
     } else {
       Complex sqrtD = std::sqrt(Complex(D));
-- 
2.43.0


From d5ff9f873db31037de912350a9b95d8e298997f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 47/95] fix: golden section search terminates for a minimum at
 0 and honours the configured iteration limit

---
 mml/algorithms/Optimization.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index b8d647f..d72f6bd 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -355,7 +355,8 @@ namespace MML {
 		/// @note Based on Numerical Recipes §10.2
 		/// @see BracketMinimum to obtain initial bracket
 		/// @see BrentMinimize for typically faster convergence
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8,
+													  int maxIter = std::numeric_limits<int>::max()) {
 			// Input validation
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			if (!bracket.valid) {
@@ -364,6 +365,8 @@ namespace MML {
 			
 			const Real R = 0.61803399; // Golden ratio conjugate (1 - φ) = (√5-1)/2
 			const Real C = 1.0 - R;	   // = 1/φ = 2/(√5+1)
+			// A relative tolerance alone is never met by a minimum at x = 0
+			const Real ZEPS = std::numeric_limits<Real>::epsilon() * 1.0e-3;
 
 			MinimizationResult result;
 			result.converged = false;
@@ -386,7 +389,10 @@ namespace MML {
 			Real f2 = func(x2);
 
 			// Main iteration loop
-			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+			while (true) {
+				result.converged = std::abs(x3 - x0) <= tol * (std::abs(x1) + std::abs(x2)) + ZEPS;
+				if (result.converged || result.iterations >= maxIter)
+					break;
 				result.iterations++;
 
 				if (f2 < f1) {
@@ -415,7 +421,6 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = true;
 			return result;
 		}
 
@@ -426,13 +431,14 @@ namespace MML {
 		/// @param b     Initial right search bound
 		/// @param tol   Fractional tolerance
 		/// @return MinimizationResult with xmin, fmin, and iteration count
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, Real a, Real b, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, Real a, Real b, Real tol = 3.0e-8,
+													  int maxIter = std::numeric_limits<int>::max()) {
 			// Input validation (bounds validated in BracketMinimum, tolerance here)
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			MinimumBracket bracket = BracketMinimum(func, a, b);
 			if (!bracket.valid)
 				throw OptimizationError("Failed to bracket minimum in GoldenSectionSearch");
-			return GoldenSectionSearch(func, bracket, tol);
+			return GoldenSectionSearch(func, bracket, tol, maxIter);
 		}
 
 		/*********************************************************************/
@@ -913,7 +919,7 @@ namespace MML {
 		                                               const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance);
+			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance, config.max_iterations);
 			result.algorithm_name = "GoldenSection";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
-- 
2.43.0


From 6dfbe79396d996fcf5663718750a33f642c98306 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 48/95] fix: L-BFGS line search no longer accepts an uphill
 step and reports the real iteration count

---
 mml/algorithms/OptimizationMultidim.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..198a0c1 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -1814,7 +1814,7 @@ namespace MML::Optimization {
 			Vector<Real> result(N);
 			for (int j = 0; j < N; ++j)
 				result[j] = x[j];
-			return MultidimMinimizationResult(result, _fret, _iter + 1, converged);
+			return MultidimMinimizationResult(result, _fret, converged ? _iter + 1 : _iter, converged);
 		}
 
 		/// @brief Compute dot product of two VectorN
@@ -1884,14 +1884,13 @@ namespace MML::Optimization {
 
 				Real fnew = func(xnew);
 
-				if (alam < alamin) {
-					for (int j = 0; j < N; ++j)
-						x[j] = xnew[j];
-					return fnew;
-				} else if (fnew <= f + ALF * alam * slope) {
+				if (fnew <= f + ALF * alam * slope) {
 					for (int j = 0; j < N; ++j)
 						x[j] = xnew[j];
 					return fnew;
+				} else if (alam < alamin) {
+					// No acceptable step found - stay at the current point
+					return f;
 				} else {
 					Real tmplam;
 					if (alam == 1.0) {
-- 
2.43.0


From 45020f16017225d2879f5e7d95ffd600c89a8260 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:02:21 +0000
Subject: [PATCH 49/95] fix: ODE and DAE solutions grow to any index (a write
 far past the capacity was out of bounds)

---
 mml/base/DAESystem.h         | 8 ++++----
 mml/base/ODESystemSolution.h | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 8d1c53d..6705bb9 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -237,7 +237,7 @@ namespace MML
 			if (y.size() != _algDim)
 				throw ArgumentError("Algebraic vector size mismatch in DAESolution::fillValues");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = t;
@@ -255,7 +255,7 @@ namespace MML
 		{
 			if (ind < 0)
 				throw IndexError("Index must be non-negative in DAESolution::setTVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_tval[ind] = t;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -271,7 +271,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setXVal");
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component index out of range in DAESolution::setXVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_xval[component][ind] = val;
 		}
@@ -286,7 +286,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setYVal");
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component index out of range in DAESolution::setYVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_yval[component][ind] = val;
 		}
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..31ef2fc 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -162,7 +162,7 @@ namespace MML
 			if (ind < 0 )
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
@@ -181,7 +181,7 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_xval[component][ind] = x;
@@ -202,7 +202,7 @@ namespace MML
 			if( y.size() != _sysDim )
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
-			if(ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
-- 
2.43.0


From 405d26a1139697b1b78c6ccf4a6cd55206fb4d9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:03:41 +0000
Subject: [PATCH 50/95] fix: ODE and DAE solutions return and interpolate only
 the saved points, not the unused capacity

---
 mml/base/DAESystem.h         | 14 +++++++++++++-
 mml/base/ODESystemSolution.h | 23 ++++++++++++++++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 6705bb9..fd2e40e 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -131,7 +131,11 @@ namespace MML
 		//=========================================================================
 
 		/// @brief Get all time points as vector
-		Vector<Real> getTValues() const { return _tval; }
+		Vector<Real> getTValues() const {
+			Vector<Real> res = _tval;
+			res.Resize(_count, true); // only the saved points
+			return res;
+		}
 		/// @brief Get all differential state vectors as matrix (diffDim x numPoints)
 		Matrix<Real> getXValues() const { return _xval; }
 		/// @brief Get all algebraic state vectors as matrix (algDim x numPoints)
@@ -314,6 +318,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 			return LinearInterpRealFunc(xsave, ysave);
 		}
 
@@ -324,6 +330,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _yval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 			return LinearInterpRealFunc(xsave, ysave);
 		}
 
@@ -334,6 +342,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
@@ -344,6 +354,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _yval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 31ef2fc..7edeafa 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -105,9 +105,18 @@ namespace MML
 		}
 
 		/// @brief Get all time points as vector
-		Vector<Real> getTValues() const { return _tval; }
+		Vector<Real> getTValues() const {
+			Vector<Real> res = _tval;
+			res.Resize(_count, true); // only the saved points
+			return res;
+		}
 		/// @brief Get all state vectors as matrix (dim x numPoints)
-		Matrix<Real> getXValues() const { return _xval; }
+		Matrix<Real> getXValues() const {
+			Matrix<Real> res = _xval;
+			if (_count > 0)
+				res.Resize(_sysDim, _count, true); // only the saved points
+			return res;
+		}
 		
 		/// @brief Get t-value at a specific saved point
 		/// @param ind Index of saved point
@@ -138,7 +147,9 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component out of range in ODESystemSolution::getXValues(component)");
 			
-			return _xval.VectorFromRow(component); 
+			Vector<Real> res = _xval.VectorFromRow(component);
+			res.Resize(_count, true); // only the saved points
+			return res;
 		}
 
 		/// @brief Get state vector at final saved point
@@ -229,6 +240,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 
 			return LinearInterpRealFunc(xsave, ysave);
 		}
@@ -241,6 +254,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 			return PolynomInterpRealFunc(xsave, ysave, polyOrder + 1);
 		}
 		
@@ -251,6 +266,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true); // only the saved points
+			ysave.Resize(_count, true);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
-- 
2.43.0


From 72a9fc3e9e9f3b11cb7ea5829595e21b0f20cad1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:14:11 +0000
Subject: [PATCH 51/95] fix: Dormand-Prince 8 stepper no longer reuses a stage
 derivative that is not the derivative at the new state

---
 mml/algorithms/ODESolvers/ODERKCoefficients.h |  2 +-
 mml/algorithms/ODESolvers/ODESteppers.h       | 27 +++++++------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODERKCoefficients.h b/mml/algorithms/ODESolvers/ODERKCoefficients.h
index a55a683..717b95d 100644
--- a/mml/algorithms/ODESolvers/ODERKCoefficients.h
+++ b/mml/algorithms/ODESolvers/ODERKCoefficients.h
@@ -190,7 +190,7 @@ namespace RKCoeff {
 		static constexpr int stages = 13;
 		static constexpr int order = 8;
 		static constexpr int error_order = 7;
-		static constexpr bool fsal = true;
+		static constexpr bool fsal = false;
 
 		// Time nodes (c coefficients)
 		static constexpr Real c[13] = {
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..ee25123 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -523,7 +523,7 @@ namespace MML {
 	/// High-order method for problems requiring very high accuracy.
 	/// Features:
 	/// - 8th order accurate solution with 7th order error estimate
-	/// - 13 stages (FSAL optimization applies)
+	/// - 13 stages (not FSAL: the last stage state differs from the 8th order solution)
 	/// - Excellent for smooth problems, astronomical trajectories
 	/// - Higher cost per step but much larger accurate step sizes
 	class DormandPrince8_Stepper : public IAdaptiveStepper {
@@ -539,8 +539,8 @@ namespace MML {
 		Real _tOld;
 		Real _hDone;
 		Vector<Real> _xOld;
+		Vector<Real> _dxNew; // Derivative at the end of the last accepted step
 		bool _stepReady;
-		bool _haveFSAL;
 		Real _errOld;
 
 		// Dormand-Prince 8(7) coefficients from centralized header
@@ -576,13 +576,13 @@ namespace MML {
 			, _tOld(0)
 			, _hDone(0)
 			, _stepReady(false)
-			, _haveFSAL(false)
 			, _errOld(1.0) {
 			_k.resize(NSTAGES);
 			for (int i = 0; i < NSTAGES; ++i)
 				_k[i].Resize(_n);
 			_xNew.Resize(_n);
 			_xOld.Resize(_n);
+			_dxNew.Resize(_n);
 		}
 
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
@@ -593,12 +593,7 @@ namespace MML {
 			Real h = htry;
 
 			while (true) {
-				// Use FSAL if available
-				if (_haveFSAL) {
-					_k[0] = _k[12];
-				} else {
-					_k[0] = dxdt;
-				}
+				_k[0] = dxdt;
 
 				// Stage 2
 				for (int i = 0; i < _n; i++)
@@ -655,7 +650,7 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a12[0] * _k[0][i] + a12[3] * _k[3][i] + a12[4] * _k[4][i] + a12[5] * _k[5][i] + a12[6] * _k[6][i] + a12[7] * _k[7][i] + a12[8] * _k[8][i] + a12[9] * _k[9][i] + a12[10] * _k[10][i]);
 				_sys.derivs(t + c[11] * h, _xNew, _k[11]);
 
-				// Stage 13 (final, also FSAL)
+				// Stage 13 (final)
 				for (int i = 0; i < _n; i++)
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
@@ -694,8 +689,8 @@ namespace MML {
 
 					// Update state
 					x = _xNew;
-					dxdt = _k[12];
-					_haveFSAL = true;
+					_sys.derivs(t + h, x, dxdt);
+					_dxNew = dxdt; // Store for interpolation
 
 					// Step size control for next step
 					Real factor = SAFETY * std::pow(errMax, -ALPHA);
@@ -710,7 +705,6 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
-				_haveFSAL = false;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
@@ -737,23 +731,22 @@ namespace MML {
 
 			for (int i = 0; i < _n; i++) {
 				Real hf0 = _hDone * _k[0][i];
-				Real hf1 = _hDone * _k[12][i];
+				Real hf1 = _hDone * _dxNew[i];
 				result[i] = h00 * _xOld[i] + h10 * hf0 + h01 * _xNew[i] + h11 * hf1;
 			}
 
 			return result;
 		}
 
-		bool isFSAL() const override { return true; }
+		bool isFSAL() const override { return false; }
 
-		const Vector<Real>& getFinalDeriv() const override { return _k[12]; }
+		const Vector<Real>& getFinalDeriv() const override { return _dxNew; }
 
 		int stageCount() const override { return NSTAGES; }
 
 		int order() const override { return 8; }
 
 		void resetFSAL() override {
-			_haveFSAL = false;
 			_stepReady = false;
 			_errOld = 1.0;
 		}
-- 
2.43.0


From 8b140ea7971d50c2d0148f139d3ac5dfbf8fbf5d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 52/95] fix: Bulirsch-Stoer steppers start each Neville row
 from the new estimate

---
 mml/algorithms/ODESolvers/ODESteppers.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index ee25123..dd947f2 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -835,6 +835,8 @@ namespace MML {
 			} else {
 				// Use Neville's algorithm
 				Vector<Real> c = yest;
+				yz = yest;
+				dy = yest;
 
 				for (int k = 0; k < iest; k++) {
 					Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -847,11 +849,11 @@ namespace MML {
 						delta = c[j] - q;
 						dy[j] = f1 * delta;
 						c[j] = f2 * delta;
+						yz[j] += dy[j];
 					}
 				}
 
 				for (int j = 0; j < _n; j++) {
-					yz[j] += dy[j];
 					_d[iest][j] = dy[j];
 				}
 			}
@@ -1063,6 +1065,8 @@ namespace MML {
 			// Use Neville's polynomial extrapolation (same as pzextr)
 			// This is more stable than rational extrapolation
 			Vector<Real> c = yest;
+			yz = yest;
+			dy = yest;
 
 			for (int k = 0; k < iest; k++) {
 				Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -1075,11 +1079,11 @@ namespace MML {
 					Real diff = c[j] - q;
 					dy[j] = f1 * diff;
 					c[j] = f2 * diff;
+					yz[j] += dy[j];
 				}
 			}
 
 			for (int j = 0; j < _n; j++) {
-				yz[j] += dy[j];
 				_d[iest][j] = dy[j];
 			}
 		}
-- 
2.43.0


From e1c4e6c353b70cb2f35c44340fd6324f208dd621 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 53/95] fix: adaptive ODE steps count the evaluations and
 rejections of all their tries

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 1 +
 mml/algorithms/ODESolvers/ODESteppers.h       | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index ddf0f42..400a491 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -128,6 +128,7 @@ namespace MML {
 			} else {
 				rejectedSteps++;
 			}
+			rejectedSteps += result.rejectedTries;
 			totalFuncEvals += result.funcEvals;
 		}
 
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index dd947f2..e23d0f7 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -32,6 +32,7 @@ namespace MML {
 		// === Error Information ===
 		Real errMax = 0.0;	   ///< Maximum error ratio (for diagnostics)
 		int funcEvals = 0;	   ///< Number of function evaluations used
+		int rejectedTries = 0; ///< Number of larger step sizes tried and rejected within this step
 
 		// === Diagnostics (for single-step analysis) ===
 		AlgorithmStatus status = AlgorithmStatus::Success;  ///< Step status
@@ -262,6 +263,7 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
+				result.rejectedTries++;
 				_haveFSAL = false;
 
 				if (std::abs(h) < Constants::Eps) {
@@ -424,7 +426,7 @@ namespace MML {
 					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);
 				_sys.derivs(t + a6 * h, _xtemp, _k6);
 
-				result.funcEvals = 6;
+				result.funcEvals += 6;
 
 				// 5th order solution
 				for (int i = 0; i < _n; i++)
@@ -466,6 +468,7 @@ namespace MML {
 				}
 
 				// Reduce step size
+				result.rejectedTries++;
 				Real htemp = SAFETY * h * std::pow(errMax, PSHRINK);
 				h = (h >= 0) ? std::max<Real>(htemp, Real(0.1) * h) : std::min<Real>(htemp, Real(0.1) * h);
 
@@ -655,7 +658,7 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
 
-				result.funcEvals = 13;
+				result.funcEvals += 13;
 
 				// 8th order solution
 				for (int i = 0; i < _n; i++) {
@@ -705,6 +708,7 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
+				result.rejectedTries++;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
-- 
2.43.0


From cf20d7848cc454242b885f63547608daeca08323 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 54/95] fix: a rejected Bulirsch-Stoer step no longer corrupts
 the dense output of the last accepted one

---
 mml/algorithms/ODESolvers/ODESteppers.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index e23d0f7..9c9e00e 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -887,9 +887,6 @@ namespace MML {
 			result.accepted = false;
 			result.funcEvals = 1; // We already have dxdt
 
-			_tOld = t;
-			_xOld = x;
-			_dydxOld = dxdt; // Store initial derivative for Hermite interpolation
 			Real h = htry;
 
 			Vector<Real> ysav = x;
@@ -921,6 +918,9 @@ namespace MML {
 					if (errMax < 1.0) {
 						// Converged!
 						result.accepted = true;
+						_tOld = t;
+						_xOld = ysav;
+						_dydxOld = dxdt; // Store initial derivative for Hermite interpolation
 						_xNew = yest;
 						_err = yerr;
 						_hDone = h;
@@ -951,6 +951,9 @@ namespace MML {
 		}
 
 		Vector<Real> interpolate(Real t) const override {
+			if (_hDone == 0)
+				throw ODESolverError("No valid step data for interpolation");
+
 			// Hermite cubic interpolation using function values and derivatives at both endpoints
 			Real theta = (t - _tOld) / _hDone;
 			Real theta2 = theta * theta;
@@ -982,7 +985,7 @@ namespace MML {
 
 		int order() const override { return 2 * KMAXX; }
 
-		void resetFSAL() override {}
+		void resetFSAL() override { _hDone = 0; }
 	};
 
 	//===================================================================================
@@ -1116,9 +1119,6 @@ namespace MML {
 			result.accepted = false;
 			result.funcEvals = 1; // We already have dxdt
 
-			_tOld = t;
-			_xOld = x;
-			_dydxOld = dxdt; // Store initial derivative for Hermite interpolation
 			Real h = htry;
 
 			Vector<Real> ysav = x;
@@ -1150,6 +1150,9 @@ namespace MML {
 					if (errMax < 1.0) {
 						// Converged!
 						result.accepted = true;
+						_tOld = t;
+						_xOld = ysav;
+						_dydxOld = dxdt; // Store initial derivative for Hermite interpolation
 						_xNew = yest;
 						_err = yerr;
 						_hDone = h;
@@ -1180,6 +1183,9 @@ namespace MML {
 		}
 
 		Vector<Real> interpolate(Real t) const override {
+			if (_hDone == 0)
+				throw ODESolverError("No valid step data for interpolation");
+
 			// Hermite cubic interpolation using function values and derivatives at both endpoints
 			Real theta = (t - _tOld) / _hDone;
 			Real theta2 = theta * theta;
@@ -1211,7 +1217,7 @@ namespace MML {
 
 		int order() const override { return 2 * KMAXX; }
 
-		void resetFSAL() override {}
+		void resetFSAL() override { _hDone = 0; }
 	};
 
 } // namespace MML
-- 
2.43.0


From af5f06cc99906263c3258eb9cf85d754be4eb38b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 55/95] fix: adaptive integration drops no output point near a
 step end and refuses a reversed range

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 400a491..25baabc 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -224,6 +224,10 @@ namespace MML {
 		/// @param minStepSize Minimum allowed step size (default 1e-15)
 		/// @return Solution with points at regular intervals
 		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+			if (tEnd < t0 || !(outputInterval > 0 || tEnd == t0)) {
+				throw ODESolverError("ODEAdaptiveIntegrator needs tEnd >= t0 and a positive output interval");
+			}
+
 			int n = _sys.getDim();
 			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
 
@@ -262,11 +266,9 @@ namespace MML {
 					Real tNew = t + result.hDone;
 
 					// Dense output: interpolate at all output points within this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
-							sol.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
+					while (tNextOutput <= tNew && outputIdx < numOutputPoints) {
+						Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
+						sol.fillValues(outputIdx++, tNextOutput, xInterp);
 						tNextOutput += outputInterval;
 					}
 
@@ -280,7 +282,7 @@ namespace MML {
 				}
 
 				// Safety check
-				if (h < minStepSize) {
+				if (h < minStepSize && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
 				}
 			}
-- 
2.43.0


From 2f010f99b5cd00ad92f412a88c2d6833c02c805a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 56/95] fix: adaptive integration enforces the configured
 maximum step size and step count

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 25baabc..5f20de6 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -222,8 +222,12 @@ namespace MML {
 		/// @param eps Error tolerance (default 1e-10)
 		/// @param h0 Initial step size (0 = auto-estimate)
 		/// @param minStepSize Minimum allowed step size (default 1e-15)
+		/// @param maxStepSize Maximum allowed step size (default infinity)
+		/// @param maxSteps Maximum number of accepted steps; when they do not reach tEnd, the points
+		///                 reached so far are returned with status MaxIterationsExceeded
 		/// @return Solution with points at regular intervals
-		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15,
+		                            Real maxStepSize = std::numeric_limits<Real>::infinity(), int maxSteps = std::numeric_limits<int>::max()) {
 			if (tEnd < t0 || !(outputInterval > 0 || tEnd == t0)) {
 				throw ODESolverError("ODEAdaptiveIntegrator needs tEnd >= t0 and a positive output interval");
 			}
@@ -254,6 +258,13 @@ namespace MML {
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
+				if (_stats.acceptedSteps >= maxSteps) {
+					_stats.status = AlgorithmStatus::MaxIterationsExceeded;
+					_stats.error_message = "Maximum steps (" + std::to_string(maxSteps) + ") exceeded";
+					return sol;
+				}
+				h = std::min(h, maxStepSize);
+
 				// Don't step past end
 				if (t + h > tEnd) {
 					h = tEnd - t;
@@ -380,16 +391,11 @@ namespace MML {
 				: (tEnd - t0) / 100.0;  // Default: 100 output points
 
 			ODESystemSolution sol = integrate(x0, t0, tEnd, outputInterval, 
-				config.tolerance, config.initial_step_size, config.min_step_size);
+				config.tolerance, config.initial_step_size, config.min_step_size,
+				config.max_step_size, config.max_steps);
 
 			// Populate diagnostic fields in statistics
 			_stats.elapsed_time_ms = timer.elapsed_ms();
-			
-			// Check for max steps exceeded (if we tracked it)
-			if (_stats.acceptedSteps >= config.max_steps) {
-				_stats.status = AlgorithmStatus::MaxIterationsExceeded;
-				_stats.error_message = "Maximum steps (" + std::to_string(config.max_steps) + ") exceeded";
-			}
 
 			return sol;
 		}
@@ -486,6 +492,8 @@ namespace MML {
 				result.min_step_size    = stats.minStepSize;
 				result.max_step_size    = stats.maxStepSize;
 				result.function_evaluations = stats.totalFuncEvals;
+				result.status           = stats.status;
+				result.error_message    = stats.error_message;
 			});
 	}
 
-- 
2.43.0


From bd4fd39027e8c6bea197d7d867190f0442dfcb9b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:38:55 +0000
Subject: [PATCH 57/95] fix: event detection processes every event of a step in
 order (later ones were lost)

---
 .../ODESolvers/ODESolverEventDetection.h      | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ee5d0d8..0b9410c 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -13,6 +13,10 @@
 #if !defined MML_ODE_SOLVER_EVENT_DETECTION_H
 #define MML_ODE_SOLVER_EVENT_DETECTION_H
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 #include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
 #include "mml/interfaces/IODESystemWithEvents.h"
 
@@ -135,9 +139,7 @@ namespace MML {
 					sys.eventFunctions(tNew, x, gNew);
 
 					// Check for zero crossings
-					bool eventDetected = false;
-					int eventIndex = -1;
-					Real eventTime = tNew;
+					std::vector<std::pair<Real, int>> crossings; // (time, event index)
 
 					for (int i = 0; i < numEvents; ++i) {
 						bool crossing = false;
@@ -192,16 +194,15 @@ namespace MML {
 								}
 							}
 
-							Real tEvent = tLo;
-							if (tEvent < eventTime) {
-								eventTime = tEvent;
-								eventIndex = i;
-								eventDetected = true;
-							}
+							crossings.push_back({tLo, i});
 						}
 					}
 
-					if (eventDetected && eventIndex >= 0) {
+					// Process all events of this step in chronological order
+					std::sort(crossings.begin(), crossings.end());
+					bool restarted = false;
+
+					for (const auto& [eventTime, eventIndex] : crossings) {
 						// Get precise state at event
 						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
 						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
@@ -248,11 +249,15 @@ namespace MML {
 							// Re-estimate step size
 							h = this->estimateInitialStep(t, x, tEnd, eps);
 							h = std::min(h, tEnd - t);
-							continue; // Skip normal update
+							restarted = true;
+							break; // Later crossings of this step belong to the abandoned trajectory
 						}
-						// EventAction::Continue: fall through to normal update
+						// EventAction::Continue: go on to the next event, then to the normal update
 					}
 
+					if (restarted)
+						continue; // Skip normal update
+
 					// Dense output for this step
 					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
 						if (tNextOutput <= tNew) {
-- 
2.43.0


From dbc56acc8ab3b8688b8545ddc167de10de7c997e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:38:55 +0000
Subject: [PATCH 58/95] fix: event detection no longer misses a crossing that
 falls exactly on a step end

---
 mml/algorithms/ODESolvers/ODESolverEventDetection.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index 0b9410c..945e6fa 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -145,10 +145,10 @@ namespace MML {
 						bool crossing = false;
 						EventDirection actualDir = EventDirection::Both;
 
-						// Check sign change
-						if (gPrev[i] * gNew[i] < 0) {
+						// Check sign change (a step that ends exactly at zero counts, once)
+						if ((gPrev[i] < 0 && gNew[i] >= 0) || (gPrev[i] > 0 && gNew[i] <= 0)) {
 							// Determine crossing direction
-							if (gPrev[i] < 0 && gNew[i] > 0) {
+							if (gPrev[i] < 0) {
 								actualDir = EventDirection::Increasing;
 							} else {
 								actualDir = EventDirection::Decreasing;
-- 
2.43.0


From dc8f071ba69c8d68d33dbc2a7d565b39beec7e4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:38:55 +0000
Subject: [PATCH 59/95] fix: integration with events drops no output point near
 a step end and refuses a reversed range

---
 .../ODESolvers/ODESolverEventDetection.h      | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index 945e6fa..056ee60 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -92,6 +92,10 @@ namespace MML {
 		 */
 		EventResult integrateWithEvents(const IODESystemWithEvents& sys, const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval,
 																		Real eps = 1e-10, Real eventTol = 1e-12, Real h0 = 0) {
+			if (tEnd < t0 || !(outputInterval > 0 || tEnd == t0)) {
+				throw ODESolverError("integrateWithEvents needs tEnd >= t0 and a positive output interval");
+			}
+
 			int n = sys.getDim();
 			int numEvents = sys.getNumEvents();
 			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
@@ -219,11 +223,9 @@ namespace MML {
 						result.events.push_back(evt);
 
 						// Dense output up to event time
-						while (tNextOutput <= eventTime + Constants::Eps && outputIdx < numOutputPoints) {
-							if (tNextOutput <= eventTime) {
-								Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-								result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-							}
+						while (tNextOutput <= eventTime && outputIdx < numOutputPoints) {
+							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
+							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
 							tNextOutput += outputInterval;
 						}
 
@@ -259,11 +261,9 @@ namespace MML {
 						continue; // Skip normal update
 
 					// Dense output for this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
+					while (tNextOutput <= tNew && outputIdx < numOutputPoints) {
+						Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
+						result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
 						tNextOutput += outputInterval;
 					}
 
@@ -275,7 +275,7 @@ namespace MML {
 					h = stepResult.hNext;
 				}
 
-				if (h < Constants::Eps) {
+				if (h < Constants::Eps && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in integrateWithEvents");
 				}
 			}
-- 
2.43.0


From 09b5e8c06fd3f9aee8d9f9b321235ef6e579851e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:44:34 +0000
Subject: [PATCH 60/95] fix: a restart event that leaves its event function
 unchanged is not detected twice

---
 .../ODESolvers/ODESolverEventDetection.h      | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index 056ee60..a52d992 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -114,6 +114,10 @@ namespace MML {
 			Vector<Real> gPrev(numEvents);
 			sys.eventFunctions(t, x, gPrev);
 
+			// After a restart: side of zero (+1/-1) an event function is still passing to, so that
+			// the crossing that caused the restart is not detected again
+			std::vector<int> passingTo(numEvents, 0);
+
 			// Initial step size
 			Real h = (h0 > 0) ? h0 : this->estimateInitialStep(t0, x0, tEnd, eps);
 			h = std::min(h, tEnd - t0);
@@ -149,6 +153,12 @@ namespace MML {
 						bool crossing = false;
 						EventDirection actualDir = EventDirection::Both;
 
+						if (passingTo[i] != 0) {
+							if (gNew[i] * passingTo[i] > 0 || std::abs(gNew[i]) > std::abs(gPrev[i]))
+								passingTo[i] = 0;
+							continue;
+						}
+
 						// Check sign change (a step that ends exactly at zero counts, once)
 						if ((gPrev[i] < 0 && gNew[i] >= 0) || (gPrev[i] > 0 && gNew[i] <= 0)) {
 							// Determine crossing direction
@@ -248,6 +258,18 @@ namespace MML {
 							sys.eventFunctions(t, x, gPrev);
 							this->_stepper.resetFSAL();
 
+							// If the handler left the event function alone, the trajectory may still have to
+							// complete the crossing that was located up to the tolerance
+							std::fill(passingTo.begin(), passingTo.end(), 0);
+							if (gPrev[eventIndex] == gEvent) {
+								Real dt = std::sqrt(std::numeric_limits<Real>::epsilon()) * std::max<Real>(Real(1), std::abs(t));
+								Real trend = sys.eventFunction(eventIndex, t + dt, x + dxdt * dt) - gEvent;
+								if (gEvent * trend < 0)
+									passingTo[eventIndex] = trend > 0 ? 1 : -1;
+								else if (gEvent == 0)
+									gPrev[eventIndex] = trend;
+							}
+
 							// Re-estimate step size
 							h = this->estimateInitialStep(t, x, tEnd, eps);
 							h = std::min(h, tEnd - t);
-- 
2.43.0


From 2d19009b890acf882db38573655a4d41c51f5aab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 61/95] fix: fixed-step stiff solvers reach the end of a range
 that is not a multiple of the step

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 58 ++++++++++++++--------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 5201d60..f92f3ba 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -124,6 +124,17 @@ namespace MML {
 			: solution(t0, t_end, dim, num_steps) {}
 	};
 
+	/// @brief Number of fixed steps of size h from t0 to t_end (the last one may be shorter)
+	/// @details A remainder within rounding error of a whole step is not counted as a step of its own.
+	/// @throws ODESolverError for a reversed range or a step size that is not positive
+	inline int StiffFixedStepCount(Real t0, Real t_end, Real h) {
+		if (!(h > 0) || !(t_end >= t0)) {
+			throw ODESolverError("Stiff fixed-step solver needs t_end >= t0 and a positive step size");
+		}
+		int num_steps = static_cast<int>(std::ceil((t_end - t0) / h - Real(1e-9)));
+		return (num_steps < 1 && t_end > t0) ? 1 : num_steps;
+	}
+
 	///////////////////////////////////////////////////////////////////////////////////////////
 	//                           BACKWARD EULER METHOD                                        //
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -144,7 +155,7 @@ namespace MML {
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 												int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = StiffFixedStepCount(t0, t_end, h) + 1; // saved points
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -157,9 +168,10 @@ namespace MML {
 		sol.fillValues(0, t, y);
 		int step = 1;
 
-		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		while (step < num_steps) {
+			bool last_step = (step == num_steps - 1);
+			Real h_actual = last_step ? t_end - t : h;
+			Real t_next = last_step ? t_end : t + h;
 
 			// Newton iteration to solve: y_new - y - h*f(t_next, y_new) = 0
 			Vector<Real> y_new = y; // Initial guess
@@ -219,8 +231,7 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BackwardEuler";
 
 		try {
@@ -256,13 +267,14 @@ namespace MML {
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = StiffFixedStepCount(t0, t_end, h) + 1; // saved points
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
 		Real t = t0;
 		Vector<Real> y = y0;
 		Vector<Real> y_prev(dim); // For BDF2, we need previous step
+		Real h_prev = h;		  // Size of the previous step
 		Vector<Real> dydt(dim);
 		Matrix<Real> J(dim, dim);
 
@@ -272,8 +284,9 @@ namespace MML {
 
 		// First step: Use Backward Euler (BDF1) to bootstrap
 		if (step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+			bool last_step = (step == num_steps - 1);
+			Real h_actual = last_step ? t_end - t : h;
+			Real t_next = last_step ? t_end : t + h;
 
 			Vector<Real> y_new = y;
 			bool converged = false;
@@ -302,6 +315,7 @@ namespace MML {
 			}
 
 			y_prev = y;
+			h_prev = h_actual;
 			y = y_new;
 			t = t_next;
 			sol.fillValues(step, t, y);
@@ -310,23 +324,27 @@ namespace MML {
 		}
 
 		// Subsequent steps: Use BDF2
-		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		while (step < num_steps) {
+			bool last_step = (step == num_steps - 1);
+			Real h_actual = last_step ? t_end - t : h;
+			Real t_next = last_step ? t_end : t + h;
 
 			// BDF2: y_{n+1} = (4/3)*y_n - (1/3)*y_{n-1} + (2/3)*h*f(t_{n+1}, y_{n+1})
 			// Rearrange: y_{n+1} - (2/3)*h*f(t_{n+1}, y_{n+1}) = (4/3)*y_n - (1/3)*y_{n-1}
+			// (coefficients for a step of w times the previous one, as the last step may be shorter)
+			Real w = h_actual / h_prev;
+			Real beta = (1.0 + w) / (1.0 + 2.0 * w); // 2/3 for equal steps
 
-			Vector<Real> y_new = y * 2.0 - y_prev; // Extrapolation as initial guess
-			Vector<Real> rhs = y * (4.0 / 3.0) - y_prev * (1.0 / 3.0);
+			Vector<Real> y_new = y + (y - y_prev) * w; // Extrapolation as initial guess
+			Vector<Real> rhs = y * (beta * (1.0 + w)) - y_prev * (w * w / (1.0 + 2.0 * w));
 
 			bool converged = false;
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
 				system.jacobian(t_next, y_new, dydt, J);
 
-				// Residual: r = y_new - (2/3)*h*f - rhs
-				Vector<Real> residual = y_new - dydt * (2.0 / 3.0 * h_actual) - rhs;
+				// Residual: r = y_new - beta*h*f - rhs
+				Vector<Real> residual = y_new - dydt * (beta * h_actual) - rhs;
 				Real res_norm = residual.NormL2();
 
 				if (res_norm < newton_tol) {
@@ -334,8 +352,8 @@ namespace MML {
 					break;
 				}
 
-				// Newton step: solve (I - (2/3)*h*J)*delta = -residual
-				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (2.0 / 3.0 * h_actual);
+				// Newton step: solve (I - beta*h*J)*delta = -residual
+				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (beta * h_actual);
 				Vector<Real> rhs = residual * (-1.0);
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
@@ -348,6 +366,7 @@ namespace MML {
 
 			// Accept step
 			y_prev = y;
+			h_prev = h_actual;
 			y = y_new;
 			t = t_next;
 			sol.fillValues(step, t, y);
@@ -371,8 +390,7 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BDF2";
 
 		try {
-- 
2.43.0


From ffe2e36a72d99b9b31da724c894cc57c3acb076f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 62/95] fix: stiff solvers honour the configured step limits
 and report their evaluations

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 81 +++++++++++++++++-----
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index f92f3ba..8e876f3 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -119,11 +119,34 @@ namespace MML {
 		int total_steps = 0;
 		int newton_iterations = 0;		///< Total Newton iterations
 		int jacobian_evaluations = 0;	///< Number of Jacobian evaluations
+		int function_evaluations = 0;	///< Number of evaluations of the right-hand side
 
 		StiffSolverResult(Real t0, Real t_end, int dim, int num_steps)
 			: solution(t0, t_end, dim, num_steps) {}
 	};
 
+	/// @brief Forwards to a stiff system and counts the evaluations
+	class StiffEvaluationCounter : public IODESystemWithJacobian {
+		const IODESystemWithJacobian& _system;
+
+	public:
+		mutable int derivs_calls = 0;
+		mutable int jacobian_calls = 0;
+
+		explicit StiffEvaluationCounter(const IODESystemWithJacobian& system) : _system(system) {}
+
+		int getDim() const override { return _system.getDim(); }
+		std::string getVarName(int ind) const override { return _system.getVarName(ind); }
+		void derivs(const Real t, const Vector<Real>& x, Vector<Real>& dxdt) const override {
+			++derivs_calls;
+			_system.derivs(t, x, dxdt);
+		}
+		void jacobian(const Real t, const Vector<Real>& x, Vector<Real>& dxdt, Matrix<Real>& dydx) const override {
+			++jacobian_calls;
+			_system.jacobian(t, x, dxdt, dydx);
+		}
+	};
+
 	/// @brief Number of fixed steps of size h from t0 to t_end (the last one may be shorter)
 	/// @details A remainder within rounding error of a whole step is not counted as a step of its own.
 	/// @throws ODESolverError for a reversed range or a step size that is not positive
@@ -234,14 +257,18 @@ namespace MML {
 		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BackwardEuler";
 
+		StiffEvaluationCounter counted(system);
 		try {
-			result.solution = SolveBackwardEuler(system, t0, y0, t_end, config.step_size, 
+			result.solution = SolveBackwardEuler(counted, t0, y0, t_end, config.step_size, 
 												 config.max_newton_iter, config.newton_tol);
 			result.total_steps = result.solution.getNumStepsOK();
 		} catch (const std::exception& e) {
 			result.status = AlgorithmStatus::NumericalInstability;
 			result.error_message = e.what();
 		}
+		result.function_evaluations = counted.derivs_calls;
+		result.jacobian_evaluations = counted.jacobian_calls;
+		result.newton_iterations = counted.jacobian_calls; // one Jacobian per Newton iteration
 
 		result.elapsed_time_ms = timer.elapsed_ms();
 		return result;
@@ -393,14 +420,18 @@ namespace MML {
 		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BDF2";
 
+		StiffEvaluationCounter counted(system);
 		try {
-			result.solution = SolveBDF2(system, t0, y0, t_end, config.step_size, 
+			result.solution = SolveBDF2(counted, t0, y0, t_end, config.step_size, 
 										config.max_newton_iter, config.newton_tol);
 			result.total_steps = result.solution.getNumStepsOK();
 		} catch (const std::exception& e) {
 			result.status = AlgorithmStatus::NumericalInstability;
 			result.error_message = e.what();
 		}
+		result.function_evaluations = counted.derivs_calls;
+		result.jacobian_evaluations = counted.jacobian_calls;
+		result.newton_iterations = counted.jacobian_calls; // one Jacobian per Newton iteration
 
 		result.elapsed_time_ms = timer.elapsed_ms();
 		return result;
@@ -429,6 +460,8 @@ namespace MML {
 		IODESystemWithJacobian& _system;
 		Real _abs_tol;
 		Real _rel_tol;
+		int _function_evals = 0;
+		int _jacobian_evals = 0;
 
 		// ROS2 coefficients - 2-stage, 2nd order, L-stable method
 		// γ = 1 + 1/sqrt(2) ≈ 1.707 for L-stability
@@ -462,6 +495,8 @@ namespace MML {
 			// Evaluate f and Jacobian at (t, y)
 			_system.derivs(t, y, dydt);
 			_system.jacobian(t, y, dydt, J);
+			++_function_evals;
+			++_jacobian_evals;
 
 			// Form matrix W = I - h*γ*J (same for all stages)
 			Matrix<Real> W = Matrix<Real>::Identity(dim) - J * (h * gamma_ros);
@@ -479,6 +514,7 @@ namespace MML {
 			Vector<Real> y2 = y + k1;
 			Vector<Real> f2(dim);
 			_system.derivs(t + h, y2, f2);
+			++_function_evals;
 			Vector<Real> rhs2 = f2 * h - k1 * 2.0;
 			Vector<Real> k2 = rhs2;
 			W_copy = W;
@@ -505,26 +541,36 @@ namespace MML {
 		/// @param h_init Initial step size
 		/// @return Solution trajectory
 		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init) {
+			return Solve(t0, y0, t_end, h_init, Real(1e-12), h_init * Real(100), 50000);
+		}
+
+	private:
+		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init, Real h_min, Real h_max, int max_steps) {
+			if (!(h_init > 0) || !(t_end >= t0)) {
+				throw ODESolverError("Rosenbrock: needs t_end >= t0 and a positive initial step size");
+			}
+
 			int dim = y0.size();
-			int max_steps = 50000; // Safety limit (storage grows dynamically if needed)
 
-			ODESystemSolution sol(t0, t_end, dim, max_steps);
+			ODESystemSolution sol(t0, t_end, dim, std::min(max_steps, 1000)); // grows if needed
 
 			Real t = t0;
 			Vector<Real> y = y0;
-			Real h = h_init;
+			Real h = std::min(h_init, h_max);
 
 			// Safety factors for step size control
 			const Real safety = 0.9;
-			const Real h_min = 1e-12;		   // Minimum step size
-			const Real h_max = h_init * 100.0; // Maximum step size
 			const Real fac_max = 5.0;		   // Maximum step increase factor
 			const Real fac_min = 0.2;		   // Minimum step decrease factor
 
 			sol.fillValues(0, t, y);
 			int step = 1;
 
-			while (t < t_end && step < max_steps) {
+			while (t < t_end) {
+				if (step > max_steps) {
+					throw std::runtime_error("Rosenbrock: Maximum steps exceeded");
+				}
+
 				Real h_actual = std::min(h, t_end - t);
 
 				// Don't take tiny final steps
@@ -586,14 +632,11 @@ namespace MML {
 				}
 			}
 
-			if (step >= max_steps) {
-				throw std::runtime_error("Rosenbrock: Maximum steps exceeded");
-			}
-
 			sol.setFinalSize(step - 1);
 			return sol;
 		}
 
+	public:
 		/// @brief Solve stiff ODE system using configuration object
 		/// @param y0 Initial condition vector
 		/// @param t0 Initial time
@@ -604,9 +647,9 @@ namespace MML {
 			AlgorithmTimer timer;  // Starts automatically
 
 			int dim = y0.size();
-			int max_steps = config.max_steps;
-			StiffSolverResult result(t0, t_end, dim, max_steps);
+			StiffSolverResult result(t0, t_end, dim, 0);
 			result.algorithm_name = "Rosenbrock23";
+			_function_evals = _jacobian_evals = 0;
 
 			// Update internal tolerances
 			_abs_tol = config.tolerance;
@@ -614,12 +657,14 @@ namespace MML {
 
 			try {
 				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
-				result.solution = Solve(t0, y0, t_end, h_init);
+				result.solution = Solve(t0, y0, t_end, h_init, config.min_step_size, config.max_step_size, config.max_steps);
 				result.total_steps = result.solution.getNumStepsOK();
 			} catch (const std::exception& e) {
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = e.what();
 			}
+			result.function_evaluations = _function_evals;
+			result.jacobian_evaluations = _jacobian_evals;
 
 			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
@@ -698,7 +743,7 @@ namespace MML {
 				result.total_steps          = inner.total_steps;
 				result.newton_iterations    = inner.newton_iterations;
 				result.jacobian_evaluations = inner.jacobian_evaluations;
-				result.function_evaluations = inner.total_steps;
+				result.function_evaluations = inner.function_evaluations;
 
 				if (inner.status != AlgorithmStatus::Success) {
 					result.status        = inner.status;
@@ -720,7 +765,7 @@ namespace MML {
 				result.total_steps          = inner.total_steps;
 				result.newton_iterations    = inner.newton_iterations;
 				result.jacobian_evaluations = inner.jacobian_evaluations;
-				result.function_evaluations = inner.total_steps;
+				result.function_evaluations = inner.function_evaluations;
 
 				if (inner.status != AlgorithmStatus::Success) {
 					result.status        = inner.status;
@@ -743,7 +788,7 @@ namespace MML {
 				result.total_steps          = inner.total_steps;
 				result.newton_iterations    = inner.newton_iterations;
 				result.jacobian_evaluations = inner.jacobian_evaluations;
-				result.function_evaluations = inner.total_steps;
+				result.function_evaluations = inner.function_evaluations;
 
 				if (inner.status != AlgorithmStatus::Success) {
 					result.status        = inner.status;
-- 
2.43.0


From e838adcda667007cb45ce42ea9bfde2ea0e1b686 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 63/95] fix: the sample variance of a single value is refused
 instead of returned as NaN

---
 mml/algorithms/Statistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index 26e118b..95c8695 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -44,6 +44,8 @@ namespace MML {
 
 			if (n <= 0)
 				throw StatisticsError("Vector size must be greater than 0 in AvgVar");
+			if (n == 1)
+				throw StatisticsError("Vector size must be greater than 1 for a variance in AvgVar");
 
 			outAvg = Avg(data);
 
-- 
2.43.0


From 241e17e132d4372b73a26458219b3da8871ce346 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 64/95] fix: hypothesis tests on constant samples or tables
 with an empty row or column no longer return NaN

---
 .../Statistics/StatisticsHypothesis.h         | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 80b5b23..678b8dd 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -127,6 +127,18 @@ namespace MML
 			);
 		}
 
+		namespace HypothesisDetail
+		{
+			/// Result of a test on constant samples (no variance), as in OneSampleTTest: equal values give
+			/// no evidence, different values a large finite statistic
+			inline HypothesisTestResult ConstantSamplesResult(Real difference, Real alpha, int df, const std::string& name)
+			{
+				if (difference == 0.0)
+					return HypothesisTestResult(0.0, 1.0, 0.0, false, 1.0 - alpha, df, name);
+				return HypothesisTestResult(difference > 0 ? 1000.0 : -1000.0, 0.0, 0.0, true, 1.0 - alpha, df, name);
+			}
+		} // namespace HypothesisDetail
+
 		/// @brief Two-sample t-test with equal variances (pooled)
 		///
 		/// Tests H0: μ1 = μ2 against H1: μ1 ≠ μ2
@@ -167,12 +179,15 @@ namespace MML
 			// Standard error
 			Real standardError = pooledStd * std::sqrt(1.0 / n1 + 1.0 / n2);
 
-			// t-statistic
-			Real tStatistic = (mean1 - mean2) / standardError;
-
 			// Degrees of freedom
 			int df = n1 + n2 - 2;
 
+			if (standardError == 0.0)
+				return HypothesisDetail::ConstantSamplesResult(mean1 - mean2, alpha, df, "Two-Sample t-Test (Pooled)");
+
+			// t-statistic
+			Real tStatistic = (mean1 - mean2) / standardError;
+
 			// Create t-distribution
 			TDistribution tDist(df);
 
@@ -234,6 +249,9 @@ namespace MML
 			Real se2 = var2 / n2;
 			Real standardError = std::sqrt(se1 + se2);
 
+			if (standardError == 0.0)
+				return HypothesisDetail::ConstantSamplesResult(mean1 - mean2, alpha, n1 + n2 - 2, "Welch's t-Test (Unequal Variances)");
+
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
 
@@ -439,6 +457,14 @@ namespace MML
 			if (grandTotal <= 0.0)
 				throw StatisticsError("Table must have positive total frequency");
 
+			// An empty row or column has expected frequencies of zero
+			for (int i = 0; i < rows; i++)
+				if (rowTotals[i] <= 0.0)
+					throw StatisticsError("Every row must have positive total frequency");
+			for (int j = 0; j < cols; j++)
+				if (colTotals[j] <= 0.0)
+					throw StatisticsError("Every column must have positive total frequency");
+
 			// Compute chi-square statistic
 			Real chiSquare = 0.0;
 			for (int i = 0; i < rows; i++) {
@@ -554,6 +580,10 @@ namespace MML
 			Real MSB = SSB / df_between;      // Mean square between
 			Real MSW = SSW / df_within;       // Mean square within
 
+			// All groups are constant: F is undefined (equal means) or unbounded
+			if (MSW == 0.0)
+				return HypothesisDetail::ConstantSamplesResult(MSB, alpha, df_between, "One-Way ANOVA");
+
 			// F-statistic
 			Real F = MSB / MSW;
 
-- 
2.43.0


From 0ec4979e02ae00fd529ff0e1359baa0e20b035a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 65/95] fix: rank correlation of very small values no longer
 treats distinct values as ties

---
 mml/algorithms/Statistics/StatisticsRank.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsRank.h b/mml/algorithms/Statistics/StatisticsRank.h
index 50a0a91..c479376 100644
--- a/mml/algorithms/Statistics/StatisticsRank.h
+++ b/mml/algorithms/Statistics/StatisticsRank.h
@@ -47,7 +47,7 @@ namespace MML
 			while (i < n) {
 				int j = i;
 				// Find extent of tied values
-				while (j < n - 1 && std::abs(data[indices[j + 1]] - data[indices[i]]) < 1e-14)
+				while (j < n - 1 && data[indices[j + 1]] == data[indices[i]])
 					j++;
 
 				// Average rank for tied values
@@ -170,16 +170,14 @@ namespace MML
 			long long tiedX = 0;
 			long long tiedY = 0;
 
-			const Real eps = 1e-14;
-
 			// Count all pairs
 			for (int i = 0; i < n - 1; i++) {
 				for (int j = i + 1; j < n; j++) {
 					Real dx = x[j] - x[i];
 					Real dy = y[j] - y[i];
 
-					bool xTied = std::abs(dx) < eps;
-					bool yTied = std::abs(dy) < eps;
+					bool xTied = (dx == 0.0);
+					bool yTied = (dy == 0.0);
 
 					if (xTied && yTied) {
 						// Both tied - don't count
-- 
2.43.0


From bf8dac29ebf85df27d8e4e36c52a9a4d8d9aab0d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:43:30 +0000
Subject: [PATCH 66/95] fix: Kaiser and Gaussian windows of one sample are 1
 instead of NaN

---
 mml/algorithms/FourierWindowing.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 01f6870..b6a0b7c 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -202,6 +202,9 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidateNonNegative(beta, "beta", "Windows::Kaiser");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			// Modified Bessel function I0(x) using series expansion
 			auto bessel_i0 = [](Real x) -> Real {
 				Real sum = 1.0;
@@ -252,6 +255,9 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidatePositive(sigma, "sigma", "Windows::Gaussian");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			Vector<Real> window(n);
 			Real center = (n - 1) / 2.0;
 			Real denominator = sigma * (n - 1) / 2.0;
-- 
2.43.0


From 84f39b9fefb3b251cacb360a9850c922b441efb3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:43:30 +0000
Subject: [PATCH 67/95] fix: FFT::NextPowerOfTwo no longer loops forever above
 2^30

---
 mml/algorithms/Fourier.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/algorithms/Fourier.h b/mml/algorithms/Fourier.h
index 9557dc9..25e4728 100644
--- a/mml/algorithms/Fourier.h
+++ b/mml/algorithms/Fourier.h
@@ -447,6 +447,9 @@ namespace MML::Fourier
 			if (IsPowerOfTwo(n))
 				return n;
 
+			if (n > (1 << 30))
+				throw std::invalid_argument("FFT::NextPowerOfTwo - no power of 2 this large is representable");
+
 			int power = 1;
 			while (power < n) {
 				power <<= 1;
-- 
2.43.0


From 3a132271115967052994fc4c05805b6ff8db5b6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 68/95] fix: the coefficient of determination of a fit no
 longer depends on the unit of the data

---
 mml/algorithms/CurveFitting.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 32aaa9c..3997919 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -100,6 +100,26 @@ namespace MML {
 					AlgorithmStatus::AlgorithmSpecificFailure, ex.what(), algorithm_name);
 			}
 		}
+
+		/// Coefficient of determination 1 - SS_res / SS_tot; data without variation beyond rounding
+		/// (relative to the size of the values) counts as fitted perfectly or not at all.
+		/// @return true if the data varies
+		template<typename Scalar>
+		bool CoefficientOfDetermination(const Vector<Scalar>& y_data, Scalar ss_res, Scalar ss_tot, Scalar& r_squared)
+		{
+			int n = y_data.size();
+			Scalar sum_yy = 0.0;
+			for (int i = 0; i < n; i++)
+				sum_yy += y_data[i] * y_data[i];
+
+			const Scalar rounding = n * std::numeric_limits<Scalar>::epsilon();
+			if (ss_tot > rounding * rounding * sum_yy) {
+				r_squared = 1.0 - (ss_res / ss_tot);
+				return true;
+			}
+			r_squared = (ss_res <= std::numeric_limits<Scalar>::epsilon() * sum_yy) ? 1.0 : 0.0;
+			return false;
+		}
 	} // namespace CurveFittingDetail
 	///////////////////////////           LINEAR LEAST SQUARES           ///////////////////////////
 
@@ -234,12 +254,7 @@ namespace MML {
 		}
 
 		// R^2 = 1 - (SS_res / SS_tot)
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
-		} else {
-			// All y values are identical
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
-		}
+		CurveFittingDetail::CoefficientOfDetermination(y_data, ss_res, ss_tot, result.r_squared);
 
 		result.mean_squared_error = ss_res / n;
 
@@ -388,15 +403,13 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
+		if (CurveFittingDetail::CoefficientOfDetermination(y_data, ss_res, ss_tot, result.r_squared)) {
 			// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
 			if (m > n)
 				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
@@ -479,14 +492,12 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
+		if (CurveFittingDetail::CoefficientOfDetermination(y_data, ss_res, ss_tot, result.r_squared)) {
 			if (m > n)
 				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
-- 
2.43.0


From e097300c290f0ac0d1f13fc10d5986538e27ec04 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:54:31 +0000
Subject: [PATCH 69/95] fix: a line through two points is exact in any unit of
 the abscissa

---
 mml/algorithms/CurveFitting.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 3997919..ba59c72 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -164,7 +164,7 @@ namespace MML {
 		// Special case: two points - exact fit
 		if (n == 2) {
 			Scalar dx = x_data[1] - x_data[0];
-			if (std::abs(dx) < std::numeric_limits<Scalar>::epsilon() * 10) {
+			if (std::abs(dx) <= std::numeric_limits<Scalar>::epsilon() * 10 * std::max(std::abs(x_data[0]), std::abs(x_data[1]))) {
 				// Vertical line - can't fit y = ax + b, use horizontal line at average y
 				a = 0.0;
 				b = (y_data[0] + y_data[1]) / 2.0;
-- 
2.43.0


From c29a83d0ded8377134a6a6be6ecf33bd214fffe3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:08:46 +0000
Subject: [PATCH 70/95] fix: tensors keep the variance of their indices and use
 the inverse Jacobian at the image point when transformed

---
 mml/core/CoordTransf.h | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 69439ed..76a887b 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -230,7 +230,8 @@ namespace MML
 		/// @return Transformed tensor in target coordinates
 		Tensor2<N> transfTensor2(const Tensor2<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor2<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor2<N> ret(tensor);
+			const VectorTo image = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -243,12 +244,12 @@ Real coef1, coef2;
 							if (tensor.IsContravar(0))
 								coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
 							else
-								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, pos);
+								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, image);
 
 							if (tensor.IsContravar(1))
 								coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), l, pos);
 							else
-								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, pos);
+								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, image);
 
 							ret(i, j) += coef1 * coef2 * tensor(k, l);
 						}
@@ -262,7 +263,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor3<N> transfTensor3(const Tensor3<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor3<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor3<N> ret(tensor);
+			const VectorTo image = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -277,17 +279,17 @@ Real coef1, coef2;
 									if (tensor.IsContravar(0))
 										coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), l, pos);
 									else
-										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, pos);
+										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, image);
 
 									if (tensor.IsContravar(1))
 										coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), m, pos);
 									else
-										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, pos);
+										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, image);
 
 									if (tensor.IsContravar(2))
 										coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), n, pos);
 									else
-										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, pos);
+										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, image);
 
 									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
 								}
@@ -301,7 +303,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor4<N> transfTensor4(const Tensor4<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor4<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor4<N> ret(tensor);
+			const VectorTo image = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -318,22 +321,22 @@ Real coef1, coef2;
 											if (tensor.IsContravar(0))
 												coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), m, pos);
 											else
-												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, pos);
+												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, image);
 
 											if (tensor.IsContravar(1))
 												coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), n, pos);
 											else
-												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, pos);
+												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, image);
 
 											if (tensor.IsContravar(2))
 												coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), o, pos);
 											else
-												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, pos);
+												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, image);
 
 											if (tensor.IsContravar(3))
 												coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), p, pos);
 											else
-												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, pos);
+												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, image);
 
 											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
 										}
@@ -347,7 +350,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor5<N> transfTensor5(const Tensor5<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor5<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor5<N> ret(tensor);
+			const VectorTo image = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -366,27 +370,27 @@ Real coef1, coef2;
 													if (tensor.IsContravar(0))
 														coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), n, pos);
 													else
-														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, pos);
+														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, image);
 
 													if (tensor.IsContravar(1))
 														coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), o, pos);
 													else
-														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, pos);
+														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, image);
 
 													if (tensor.IsContravar(2))
 														coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), p, pos);
 													else
-														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, pos);
+														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, image);
 
 													if (tensor.IsContravar(3))
 														coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), q, pos);
 													else
-														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, pos);
+														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, image);
 
 													if (tensor.IsContravar(4))
 												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
 											else
-												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, pos);
+												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, image);
 													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
 												}
 							}
-- 
2.43.0


From 6a0df73e64a020214d39ee6fea3dba5527c5ec14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:08:46 +0000
Subject: [PATCH 71/95] fix: the inverse of an orthogonal transformation with
 base vectors of any length

---
 mml/core/CoordTransf/CoordTransf3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..de26b35 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -368,7 +368,7 @@ namespace MML
 				for (int j = 0; j < 3; j++)
 				{
 					_transf(i, j) = _base[i][j];
-					_transfInverse(i, j) = _base[j][i];
+					_transfInverse(i, j) = _base[j][i] / (_base[j] * _base[j]);
 				}
 			}
 		}
-- 
2.43.0


From c0bcc4dcdfeabb0432f28511ec4c9842a0ad378a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:09:27 +0000
Subject: [PATCH 72/95] fix: a copied coordinate transformation no longer uses
 the functions of the original

---
 mml/core/CoordTransf/CoordTransf2D.h      |  9 +++++++++
 mml/core/CoordTransf/CoordTransf3D.h      | 24 +++++++++++++++++++++++
 mml/core/CoordTransf/CoordTransfLorentz.h |  3 +++
 3 files changed, 36 insertions(+)

diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 8079a30..8a173eb 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -99,6 +99,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCart2DRotation(const CoordTransfCart2DRotation& other) : CoordTransfCart2DRotation(other._angle) {}
+
 		/// @brief Constructor for 2D rotation transformation
 		/// @param inAngle Rotation angle in radians (counterclockwise positive)
 		CoordTransfCart2DRotation(Real inAngle) : 
@@ -179,6 +182,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfObliqueToCartesian2D(const CoordTransfObliqueToCartesian2D& other) : CoordTransfObliqueToCartesian2D(other._angle) {}
+
 		/// @brief Constructor for oblique to Cartesian transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfObliqueToCartesian2D(Real inAngle)
@@ -243,6 +249,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCartesianToOblique2D(const CoordTransfCartesianToOblique2D& other) : CoordTransfCartesianToOblique2D(other._angle) {}
+
 		/// @brief Constructor for Cartesian to oblique transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfCartesianToOblique2D(Real inAngle)
diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index de26b35..ab37d54 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -37,6 +37,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCart3DRotationXAxis(const CoordTransfCart3DRotationXAxis& other) : CoordTransfCart3DRotationXAxis(other._angle) {}
+
 		/// @brief Constructor for X-axis rotation
 		/// @param inAngle Rotation angle in radians (counterclockwise looking down positive X-axis)
 		CoordTransfCart3DRotationXAxis(Real inAngle) : _angle(inAngle),
@@ -111,6 +114,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCart3DRotationYAxis(const CoordTransfCart3DRotationYAxis& other) : CoordTransfCart3DRotationYAxis(other._angle) {}
+
 		CoordTransfCart3DRotationYAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -172,6 +178,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCart3DRotationZAxis(const CoordTransfCart3DRotationZAxis& other) : CoordTransfCart3DRotationZAxis(other._angle) {}
+
 		CoordTransfCart3DRotationZAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -261,6 +270,9 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCart3DRotationEuler(const CoordTransfCart3DRotationEuler& other) : CoordTransfCart3DRotationEuler(other._alpha, other._beta, other._gamma) {}
+
 		/// @brief Constructor using ZYZ Euler angles
 		/// @param alpha First rotation around Z-axis (radians)
 		/// @param beta Second rotation around Y'-axis (radians)
@@ -333,6 +345,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransf3DCartOrthogonal(const CoordTransf3DCartOrthogonal& other) : CoordTransf3DCartOrthogonal(other._base[0], other._base[1], other._base[2]) {}
+
 		/// @brief Constructor for orthogonal transformation
 		/// @param b1 First basis vector (must be orthogonal to b2, b3)
 		/// @param b2 Second basis vector (must be orthogonal to b1, b3)
@@ -429,6 +444,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransf3DCartGeneral(const CoordTransf3DCartGeneral& other) : CoordTransf3DCartGeneral(other._transf) {}
+
 		/// @brief Constructor from transformation matrix
 		/// @param transfMat 3x3 transformation matrix (must be non-singular)
 		/// @throws SingularMatrixError if matrix is singular (determinant ≈ 0)
@@ -508,6 +526,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_baseMat * q)[2]; }
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCartesianToOblique3D(const CoordTransfCartesianToOblique3D& other) : CoordTransfCartesianToOblique3D(other._base[0], other._base[1], other._base[2]) {}
+
 		/// @brief Constructor for oblique coordinate system
 		/// @param b1 First basis vector (need not be orthogonal)
 		/// @param b2 Second basis vector (need not be orthogonal)
@@ -656,6 +677,9 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfCart3DRotationQuaternion(const CoordTransfCart3DRotationQuaternion& other) : CoordTransfCart3DRotationQuaternion(other._quat) {}
+
 		// Construct from quaternion
 		explicit CoordTransfCart3DRotationQuaternion(const Quaternion& q) 
 			: _quat(q),
diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index ce2a6f1..0e25675 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -43,6 +43,9 @@ namespace MML {
 		const ScalarFunctionFromStdFunc<4> _fInv1, _fInv2, _fInv3, _fInv4;
 
 	public:
+		/// @brief Copy: the component functions refer to their own object, so a copy builds its own
+		CoordTransfLorentzXAxis(const CoordTransfLorentzXAxis& other) : CoordTransfLorentzXAxis(other._velocity) {}
+
 		/// @brief Construct Lorentz boost along X-axis
 		/// @param inVelocity Velocity in units of c, must be in [0, 1)
 		/// @throws std::range_error if velocity is outside valid range
-- 
2.43.0


From 81ef279352e4b8947f77bee3bf0758d84c5cfbb7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:12:03 +0000
Subject: [PATCH 73/95] fix: transforming tensors of rank 3 to 5 compiles

---
 mml/core/CoordTransf.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 76a887b..aad2244 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -270,7 +270,7 @@ Real coef1, coef2;
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 					{
-						ret.Component(i, j, k) = 0;
+						ret(i, j, k) = 0;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
@@ -291,7 +291,7 @@ Real coef1, coef2;
 									else
 										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, image);
 
-									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
+									ret(i, j, k) += coef1 * coef2 * coef3 * tensor(l, m, n);
 								}
 					}
 
@@ -311,7 +311,7 @@ Real coef1, coef2;
 					for (int k = 0; k < N; k++)
 						for (int l = 0; l < N; l++)
 						{
-							ret[i][j][k][l] = 0;
+							ret(i, j, k, l) = 0;
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
@@ -338,7 +338,7 @@ Real coef1, coef2;
 											else
 												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, image);
 
-											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
+											ret(i, j, k, l) += coef1 * coef2 * coef3 * coef4 * tensor(m, n, o, p);
 										}
 						}
 
@@ -359,7 +359,7 @@ Real coef1, coef2;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 							{
-								ret[i][j][k][l][m] = 0;
+								ret(i, j, k, l, m) = 0;
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
 										for (int p = 0; p < N; p++)
@@ -391,7 +391,7 @@ Real coef1, coef2;
 												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
 											else
 												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, image);
-													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
+													ret(i, j, k, l, m) += coef1 * coef2 * coef3 * coef4 * coef5 * tensor(n, o, p, q, r);
 												}
 							}
 
-- 
2.43.0


From ea3c0db745eadfa0665b92b9f89fa9da50f5ff09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 74/95] fix: raising or lowering an index of a tensor keeps the
 variance of the other one

---
 mml/core/MetricTensor.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mml/core/MetricTensor.h b/mml/core/MetricTensor.h
index c3a0005..2e9d04b 100644
--- a/mml/core/MetricTensor.h
+++ b/mml/core/MetricTensor.h
@@ -142,7 +142,9 @@ namespace MML
 		Tensor2<N> RaiseIndex(const Tensor2<N>& t, int index_to_raise, const VectorN<Real, N>& pos) const
 		{
 			MatrixNM<Real, N, N> g_inv = GetContravariantMetric(pos);
-			Tensor2<N> result(1, 1);  // one covariant, one contravariant
+			Tensor2<N> result(t.NumCovar() - 1, t.NumContravar() + 1);
+			for (int i = 0; i < 2; i++)
+				result.setContravar(i, i == index_to_raise ? true : t.IsContravar(i));
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++) {
@@ -166,7 +168,9 @@ namespace MML
 		Tensor2<N> LowerIndex(const Tensor2<N>& t, int index_to_lower, const VectorN<Real, N>& pos) const
 		{
 			MatrixNM<Real, N, N> g = GetCovariantMetric(pos);
-			Tensor2<N> result(1, 1);  // one covariant, one contravariant
+			Tensor2<N> result(t.NumCovar() + 1, t.NumContravar() - 1);
+			for (int i = 0; i < 2; i++)
+				result.setContravar(i, i == index_to_lower ? false : t.IsContravar(i));
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++) {
-- 
2.43.0


From 67a3c5265ae1999b5cd1d45d4e311750e511c6ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:22:51 +0000
Subject: [PATCH 75/95] fix: a local frame on a rotating sphere uses the radius
 of that sphere for its latitude

---
 mml/core/CoordSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/CoordSystem.h b/mml/core/CoordSystem.h
index f111182..22c512d 100644
--- a/mml/core/CoordSystem.h
+++ b/mml/core/CoordSystem.h
@@ -515,7 +515,7 @@ namespace MML
 			// ukljuceno je u parent kalkulacije, i ovdje samo vracamo transf lokalnih (x, y, z) u (lat, long, h)
 			Vector3Cartesian pos(localPos);
 
-			double one_km_in_lat_deg = 1 / 111.32;
+			double one_km_in_lat_deg = 360 / (2 * _parentFrame._radius * Constants::PI);
 			double one_lon_deg_in_km = 2 * _parentFrame._radius * cos(Utils::DegToRad(_latitude)) * Constants::PI / 360;
 			double one_km_in_long_deg = 1 / one_lon_deg_in_km;
 
-- 
2.43.0


From b7dc762a681831d35d103dcb2f798c9e1f608c5f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 76/95] fix: a fixed point that was not found or found by the
 last iteration is reported consistently

---
 mml/systems/DynamicalSystemAnalyzers.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..9b1faec 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -45,6 +45,8 @@ namespace MML::Systems
 			FixedPoint<Real> result;
 			result.location = initialGuess;
 			result.jacobian.Resize(n, n);
+			result.type = FixedPointType::Unknown;
+			result.isStable = false;
 
 			Vector<Real> x = initialGuess;
 			Vector<Real> f(n), dx(n);
@@ -76,7 +78,7 @@ namespace MML::Systems
 					dx = solver.Solve(negF);
 				} catch (...) {
 					// Jacobian singular - can't continue
-					result.type = FixedPointType::Unknown;
+					result.location = x;
 					result.convergenceResidual = residual;
 					result.iterations = iter;
 					return result;
@@ -86,12 +88,15 @@ namespace MML::Systems
 				x = x + dx;
 			}
 
-			// Didn't converge
+			// Last iterate: converged only if its residual is below the tolerance
 			sys.derivs(0.0, x, f);
 			result.location = x;
 			result.convergenceResidual = f.NormL2();
 			result.iterations = maxIter;
-			result.type = FixedPointType::Unknown;
+			if (result.convergenceResidual < tol) {
+				sys.jacobian(0.0, x, result.jacobian);
+				ClassifyFixedPoint(result);
+			}
 			return result;
 		}
 
-- 
2.43.0


From 7a11fb970b420e82b07f0b977a596ad890c5a119 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 77/95] fix: a fixed point without eigenvalues of positive real
 part is not an unstable focus

---
 mml/systems/DynamicalSystemAnalyzers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 9b1faec..827840f 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -170,8 +170,10 @@ namespace MML::Systems
 					fp.type = FixedPointType::SaddleFocus;
 				else if (maxRealPart < -Precision::DefaultToleranceStrict)
 					fp.type = FixedPointType::StableFocus;
-				else
+				else if (numPositiveReal > 0)
 					fp.type = FixedPointType::UnstableFocus;
+				else
+					fp.type = FixedPointType::Unknown;
 			} else {
 				if (numPositiveReal > 0 && numNegativeReal > 0)
 					fp.type = FixedPointType::Saddle;
-- 
2.43.0


From 67da28abc1145a2ce4c15767d5a6c6ab9cffc120 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 78/95] fix: the variational equations use the Jacobian of
 every stage of the Runge-Kutta step

---
 mml/systems/DynamicalSystemAnalyzers.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 827840f..5a60fcc 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -263,7 +263,7 @@ namespace MML::Systems
 		static void IntegrateWithVariational(IDynamicalSystem& sys, Vector<Real>& x, Matrix<Real>& Q, Real t0, Real t1, Real h) {
 			int n = sys.getDim();
 			Vector<Real> k1(n), k2(n), k3(n), k4(n);
-			Vector<Real> xTemp(n), xOld(n), xMid(n), xEnd(n);
+			Vector<Real> xTemp(n), xOld(n), xMid(n), xMid2(n), xEnd(n);
 			Matrix<Real> J(n, n);
 			Matrix<Real> dQ1(n, n), dQ2(n, n), dQ3(n, n), dQ4(n, n);
 			Matrix<Real> QTemp(n, n);
@@ -286,6 +286,9 @@ namespace MML::Systems
 				sys.derivs(t + 0.5 * dt, xTemp, k2);
 				for (int i = 0; i < n; ++i)
 					xTemp[i] = x[i] + 0.5 * dt * k2[i];
+				// Save corrected midpoint for Jacobian evaluation
+				for (int i = 0; i < n; ++i)
+					xMid2[i] = xTemp[i];
 				sys.derivs(t + 0.5 * dt, xTemp, k3);
 				for (int i = 0; i < n; ++i)
 					xTemp[i] = x[i] + dt * k3[i];
@@ -311,6 +314,7 @@ namespace MML::Systems
 				for (int i = 0; i < n; ++i)
 					for (int j = 0; j < n; ++j)
 						QTemp(i, j) = Q(i, j) + 0.5 * dt * dQ2(i, j);
+				sys.jacobian(t + 0.5 * dt, xMid2, J);
 				MultiplyJQ(J, QTemp, dQ3);
 
 				for (int i = 0; i < n; ++i)
-- 
2.43.0


From eb04ffb125d93603d53c2c55c59c17a65cbbc070 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 79/95] fix: a parameter sweep of one step starts at the first
 parameter value

---
 mml/systems/DynamicalSystemAnalyzer.h  | 2 +-
 mml/systems/DynamicalSystemAnalyzers.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzer.h b/mml/systems/DynamicalSystemAnalyzer.h
index 36a15da..b9beea0 100644
--- a/mml/systems/DynamicalSystemAnalyzer.h
+++ b/mml/systems/DynamicalSystemAnalyzer.h
@@ -386,7 +386,7 @@ namespace MML::Systems
 																														int numSteps, const Vector<Type>& x0,
 																														Type lyapunovTime = 200) const {
 			std::vector<std::pair<Type, Type>> results;
-			Type dParam = (paramMax - paramMin) / (numSteps - 1);
+			Type dParam = numSteps > 1 ? (paramMax - paramMin) / (numSteps - 1) : Type(0);
 			Type originalParam = _sys.getParam(paramIndex);
 
 			for (int i = 0; i < numSteps; ++i) {
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 5a60fcc..119cb44 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -435,7 +435,8 @@ namespace MML::Systems
 																					Vector<Real> x0, int component, Real tTransient = 100.0, Real tRecord = 50.0, Real h = 0.01) {
 			BifurcationDiagram<Real> diagram;
 			diagram.parameterName = sys.getParamName(paramIndex);
-			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / (numSteps - 1);
+			Real originalParam = sys.getParam(paramIndex);
+			Real dParam = numSteps > 1 ? (paramMax - paramMin) / (numSteps - 1) : Real(0);
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
-- 
2.43.0


From 5faf685345755728ff6f7e2f6b9660d40a6d7863 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 80/95] fix: a Poincare section crossed exactly at the end of a
 step is not missed

---
 mml/systems/DynamicalSystemAnalyzers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 119cb44..ccf827d 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -569,7 +569,7 @@ namespace MML::Systems
 				Real val = x[section.variable] - section.value;
 
 				// Check for crossing
-				if (valPrev * val < 0) {
+				if ((valPrev < 0) != (val < 0)) {
 					// Check direction
 					bool correctDirection =
 						(section.direction == 0) || (section.direction > 0 && val > valPrev) || (section.direction < 0 && val < valPrev);
-- 
2.43.0


From d1439e38aff09c87829989423f43ad0919b03d40 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 81/95] fix: the points of a trajectory are spaced by the
 output interval from the start

---
 mml/systems/DynamicalSystemAnalyzers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index ccf827d..11dcf2d 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -600,7 +600,7 @@ namespace MML::Systems
 			Vector<Real> k1(n), k2(n), k3(n), k4(n), xTemp(n);
 
 			Real t = 0;
-			Real nextOutput = 0;
+			Real nextOutput = dtOutput;
 
 			trajectory.push_back(x);
 
-- 
2.43.0


From 52d1cf7f1832aa878617eec1e8bb0cc93d06616c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:33:05 +0000
Subject: [PATCH 82/95] fix: the Roessler, van der Pol and Chua systems report
 their analytical Jacobians

---
 mml/systems/ContinuousSystems.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/systems/ContinuousSystems.h b/mml/systems/ContinuousSystems.h
index a9fb09c..3396926 100644
--- a/mml/systems/ContinuousSystems.h
+++ b/mml/systems/ContinuousSystems.h
@@ -121,6 +121,8 @@ namespace MML::Systems
 			J(2, 1) = 0;
 			J(2, 2) = y[0] - c;
 		}
+
+		bool hasAnalyticalJacobian() const override { return true; }
 	};
 
 	//=============================================================================
@@ -157,6 +159,8 @@ namespace MML::Systems
 			J(1, 0) = -2 * mu * y[0] * y[1] - 1;
 			J(1, 1) = mu * (1 - y[0] * y[0]);
 		}
+
+		bool hasAnalyticalJacobian() const override { return true; }
 	};
 
 	//=============================================================================
@@ -273,6 +277,8 @@ namespace MML::Systems
 			J(2, 1) = -beta;
 			J(2, 2) = 0;
 		}
+
+		bool hasAnalyticalJacobian() const override { return true; }
 	};
 
 	//=============================================================================
-- 
2.43.0


From 6b03f4b7aad7754419eaf3c1404eb8264fdc0ceb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:07:54 +0000
Subject: [PATCH 83/95] fix: QR decides singularity relative to the size of the
 matrix

---
 mml/core/LinAlgEqSolvers/LinAlgQR.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 66bd518..4c32f26 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -64,12 +64,17 @@ namespace MML
 			int ncols = (_m == _n) ? _n - 1 : _n;
 			for (k = 0; k < ncols; k++)
 			{
+				// Size of the whole original column: what remains of a dependent column is rounding relative to it
+				Real col_norm = 0.0;
+				for (i = 0; i < _m; i++)
+					col_norm = std::max<Real>(col_norm, Abs(a(i, k)));
+
 				// Compute the norm of the k-th column below the diagonal
 				scale = 0.0;
 				for (i = k; i < _m; i++)
 					scale = std::max(scale, Abs(_QR[i][k]));
 
-				if (scale < std::numeric_limits<Real>::epsilon())
+				if (scale <= std::numeric_limits<Real>::epsilon() * col_norm * _m)
 				{
 					// Singular case: column below diagonal is effectively zero
 					_sing = true;
@@ -120,7 +125,7 @@ namespace MML
 						if (Abs(a(ii, jj)) > norm_a)
 							norm_a = Abs(a(ii, jj));
 				Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _n;
-				if (Abs(_d[_n - 1]) < threshold)
+				if (Abs(_d[_n - 1]) <= threshold)
 					_sing = true;
 			}
 		}
-- 
2.43.0


From 38878f98fb29632613ec24e6afe0107015ef4352 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:07:54 +0000
Subject: [PATCH 84/95] fix: LinearSystem::GetLU returns the factors and the
 permutation

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 31 +++++++++++++++++++++++++
 mml/systems/LinearSystem.h              | 12 ++++------
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index cc3db18..c974590 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -463,6 +463,37 @@ namespace MML
 				dd = dd * _lu[i][i];
 			return dd;
 		}
+
+		/// @brief Unit lower triangular factor L
+		Matrix<Type> L() const
+		{
+			Matrix<Type> ret(_n, _n);
+			for (int i = 0; i < _n; i++)
+				for (int j = 0; j < _n; j++)
+					ret[i][j] = j < i ? _lu[i][j] : Type(j == i ? 1.0 : 0.0);
+			return ret;
+		}
+
+		/// @brief Upper triangular factor U
+		Matrix<Type> U() const
+		{
+			Matrix<Type> ret(_n, _n);
+			for (int i = 0; i < _n; i++)
+				for (int j = 0; j < _n; j++)
+					ret[i][j] = j >= i ? _lu[i][j] : Type(0.0);
+			return ret;
+		}
+
+		/// @brief Row permutation: row i of L*U is row permutation()[i] of the matrix
+		std::vector<int> permutation() const
+		{
+			std::vector<int> perm(_n);
+			for (int i = 0; i < _n; i++)
+				perm[i] = i;
+			for (int i = 0; i < _n; i++)
+				std::swap(perm[i], perm[_indx[i]]);
+			return perm;
+		}
 	};
 
 
diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..0d2bbbe 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -58,7 +58,7 @@ namespace MML::Systems
 	struct LUDecomposition {
 		Matrix<Type> L;								///< Lower triangular factor
 		Matrix<Type> U;								///< Upper triangular factor
-		std::vector<int> permutation; ///< Row permutation
+		std::vector<int> permutation; ///< Row permutation: row i of L*U is row permutation[i] of A
 		Type determinant;							///< Determinant of A
 		bool valid = false;						///< Whether decomposition succeeded
 	};
@@ -899,13 +899,9 @@ namespace MML::Systems
 				try {
 					LUSolver<Type> solver(_A);
 
-					// Extract L and U from the solver's combined storage
-					int n = rows();
-					_lu->L.Resize(n, n);
-					_lu->U.Resize(n, n);
-
-					// The LU matrix has L in lower triangle and U in upper
-					// For now, store raw LU and determinant
+					_lu->L = solver.L();
+					_lu->U = solver.U();
+					_lu->permutation = solver.permutation();
 					_lu->determinant = solver.det();
 					_lu->valid = true;
 				} catch (...) {
-- 
2.43.0


From 0756ee4e716d09566dffaef589903ff3338042ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:07:54 +0000
Subject: [PATCH 85/95] fix: LinearSystem solves small, non-square and singular
 triangular systems and honours the tolerance of each query

---
 mml/systems/LinearSystem.h | 57 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 0d2bbbe..e70b5cd 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -455,35 +455,33 @@ namespace MML::Systems
 
 		/// @brief Check if matrix is symmetric within tolerance
 		bool isSymmetric(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isSymmetric.has_value()) {
-				if (!isSquare()) {
-					_isSymmetric = false;
-				} else {
-					_isSymmetric = true;
-					int n = rows();
-					for (int i = 0; i < n && *_isSymmetric; ++i)
-						for (int j = i + 1; j < n && *_isSymmetric; ++j)
-							if (std::abs(_A(i, j) - _A(j, i)) > tol)
-								_isSymmetric = false;
-				}
-			}
-			return *_isSymmetric;
+			if (!isSquare())
+				return false;
+			int n = rows();
+			for (int i = 0; i < n; ++i)
+				for (int j = i + 1; j < n; ++j)
+					if (std::abs(_A(i, j) - _A(j, i)) > tol)
+						return false;
+			return true;
 		}
 
 		/// @brief Check if matrix is positive definite
 		///
 		/// @note Attempts Cholesky decomposition
 		bool isPositiveDefinite(Type tol = Precision::DefaultToleranceStrict) const {
+			if (!isSymmetric(tol))
+				return false;
 			if (!_isPositiveDefinite.has_value()) {
-				if (!isSymmetric(tol)) {
+				// The sign of the quadratic form depends only on the symmetric part
+				Matrix<Type> sym(_A);
+				for (int i = 0; i < rows(); ++i)
+					for (int j = 0; j < i; ++j)
+						sym(i, j) = sym(j, i) = (_A(i, j) + _A(j, i)) / Type(2);
+				try {
+					CholeskySolver<Type> solver(sym);
+					_isPositiveDefinite = true;
+				} catch (const SingularMatrixError&) {
 					_isPositiveDefinite = false;
-				} else {
-					try {
-						CholeskySolver<Type> solver(_A);
-						_isPositiveDefinite = true;
-					} catch (const SingularMatrixError&) {
-						_isPositiveDefinite = false;
-					}
 				}
 			}
 			return *_isPositiveDefinite;
@@ -546,9 +544,11 @@ namespace MML::Systems
 		///
 		/// @param tol Threshold below which singular values are considered zero
 		int Rank(Type tol = -1) const {
+			if (tol >= 0)
+				return SVDecompositionSolver<Type>(_A).Rank(tol);
 			if (!_rank.has_value()) {
 				SVDecompositionSolver<Type> solver(_A);
-				_rank = solver.Rank(tol);
+				_rank = solver.Rank();
 			}
 			return *_rank;
 		}
@@ -874,7 +874,6 @@ namespace MML::Systems
 		mutable std::optional<CholeskyDecomposition<Type>> _cholesky;
 
 		// Cached properties
-		mutable std::optional<bool> _isSymmetric;
 		mutable std::optional<bool> _isPositiveDefinite;
 		mutable std::optional<Type> _conditionNumber;
 		mutable std::optional<int> _rank;
@@ -954,9 +953,13 @@ namespace MML::Systems
 		}
 
 		std::string SelectBestSolver() const {
-			// Quick structural checks first
-			if (isUpperTriangular() || isLowerTriangular())
+			// Quick structural checks first: exact zeros, since a tolerance would drop entries of small matrices
+			if (isSquare() && (isUpperTriangular(0) || isLowerTriangular(0))) {
+				for (int i = 0; i < rows(); ++i)
+					if (_A(i, i) == Type(0))
+						return "SVD"; // Singular
 				return "Triangular";
+			}
 
 			// For overdetermined systems, use QR (least squares)
 			if (isOverdetermined())
@@ -968,7 +971,7 @@ namespace MML::Systems
 				return "SVD"; // Most robust for ill-conditioned
 
 			// For SPD matrices, Cholesky is best
-			if (isSymmetric() && isPositiveDefinite())
+			if (isSymmetric(0) && isPositiveDefinite(0))
 				return "Cholesky";
 
 			// Default: LU with partial pivoting
@@ -989,7 +992,7 @@ namespace MML::Systems
 			int n = rows();
 			Vector<Type> x(n);
 
-			if (isUpperTriangular()) {
+			if (isUpperTriangular(0)) {
 				// Back substitution
 				for (int i = n - 1; i >= 0; --i) {
 					Type sum = _b[i];
-- 
2.43.0


From 26c1680eeaba3bc36fd03fbecb41c7c2e97e33a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:07:54 +0000
Subject: [PATCH 86/95] fix: LinearSystem refuses single-vector operations on a
 system with several right-hand sides

---
 mml/systems/LinearSystem.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index e70b5cd..9124e2d 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -885,6 +885,8 @@ namespace MML::Systems
 		void RequireRHS() const {
 			if (!_hasRHS)
 				throw std::runtime_error("LinearSystem: operation requires right-hand side");
+			if (_multipleRHS)
+				throw std::runtime_error("LinearSystem: operation requires a single right-hand side, use SolveMultiple");
 		}
 
 		void RequireSquare() const {
-- 
2.43.0


From 39643402b84aeac1bed059f508d44f1d5d505b92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:28:36 +0000
Subject: [PATCH 87/95] fix: eigenvectors of a real Schur form solve the rows
 of every 2x2 diagonal block

The back-substitution used the wrong sign for complex eigenvalues and treated
the rows of a 2x2 block above the eigenvalue as triangular, so the computed
vectors were not eigenvectors of the matrix.
---
 mml/algorithms/EigenSolverHelpers.h | 122 ++++++++++++++++++----------
 1 file changed, 78 insertions(+), 44 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index d921ef6..a6c67dd 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -826,6 +826,81 @@ namespace MML {
 			std::vector<bool> isComplexPair; // isComplexPair[i] = true if columns i,i+1 form complex pair
 		};
 
+		/// Back-substitute the rows above an eigenvalue block of a real Schur form.
+		///
+		/// Solves rows k-1 .. 0 of (T - (α+iβ)I)(xr + i*xi) = 0, given the entries k .. last
+		/// of xr and xi. Rows that belong to a 2x2 diagonal block of T are solved together.
+		///
+		/// @param T     Quasi-upper-triangular matrix
+		/// @param alpha Real part of the eigenvalue
+		/// @param beta  Imaginary part of the eigenvalue
+		/// @param k     First row of the eigenvalue's own block
+		/// @param last  Last row of the eigenvalue's own block
+		/// @param xr    Real part of the eigenvector (entries 0 .. k-1 are filled in)
+		/// @param xi    Imaginary part of the eigenvector (entries 0 .. k-1 are filled in)
+		static void BackSubstituteQuasiTriangular(const Matrix<Real>& T, Real alpha, Real beta, int k, int last,
+																							Vector<Real>& xr, Vector<Real>& xi) {
+			const Real tiny = PrecisionValues<Real>::DivisionSafetyThreshold;
+
+			int i = k - 1;
+			while (i >= 0) {
+				bool is2x2 = (i > 0 && std::abs(T(i, i - 1)) > tiny);
+				int first = is2x2 ? i - 1 : i;
+
+				// Right-hand sides: -(contribution of the already known components)
+				Real rhs_r[2] = {0.0, 0.0};
+				Real rhs_i[2] = {0.0, 0.0};
+				for (int row = first; row <= i; row++)
+					for (int j = i + 1; j <= last; j++) {
+						rhs_r[row - first] -= T(row, j) * xr[j];
+						rhs_i[row - first] -= T(row, j) * xi[j];
+					}
+
+				// Determinant of the diagonal block of T - (α+iβ)I, and the numerators of Cramer's rule
+				Real det_r, det_i;
+				Real num_r[2], num_i[2];
+				if (is2x2) {
+					Real p = T(first, first) - alpha;
+					Real q = T(i, i) - alpha;
+					Real b = T(first, i);
+					Real c = T(i, first);
+
+					det_r = p * q - beta * beta - b * c;
+					det_i = -beta * (p + q);
+					num_r[0] = rhs_r[0] * q + rhs_i[0] * beta - b * rhs_r[1];
+					num_i[0] = rhs_i[0] * q - rhs_r[0] * beta - b * rhs_i[1];
+					num_r[1] = rhs_r[1] * p + rhs_i[1] * beta - c * rhs_r[0];
+					num_i[1] = rhs_i[1] * p - rhs_r[1] * beta - c * rhs_i[0];
+				} else {
+					det_r = T(i, i) - alpha;
+					det_i = -beta;
+					num_r[0] = rhs_r[0];
+					num_i[0] = rhs_i[0];
+				}
+
+				// Near-singular: use small perturbation to avoid division by zero
+				if (std::abs(det_r) <= tiny && std::abs(det_i) <= tiny) {
+					det_r = tiny;
+					det_i = 0.0;
+				}
+
+				for (int row = first; row <= i; row++) {
+					Real nr = num_r[row - first];
+					Real ni = num_i[row - first];
+					if (det_i == 0.0) {
+						xr[row] = nr / det_r;
+						xi[row] = ni / det_r;
+					} else {
+						Real norm_sq = det_r * det_r + det_i * det_i;
+						xr[row] = (nr * det_r + ni * det_i) / norm_sq;
+						xi[row] = (ni * det_r - nr * det_i) / norm_sq;
+					}
+				}
+
+				i = first - 1;
+			}
+		}
+
 		/// Compute eigenvector for a real eigenvalue using back-substitution.
 		///
 		/// Given upper triangular T with eigenvalue λ = T[k,k], solve (T - λI)x = 0
@@ -846,19 +921,8 @@ namespace MML {
 			// (T[i,i] - λ) * x[i] + sum_{j=i+1}^{k} T[i,j] * x[j] = 0
 			// x[i] = -sum_{j=i+1}^{k} T[i,j] * x[j] / (T[i,i] - λ)
 
-			for (int i = k - 1; i >= 0; i--) {
-				Real sum = 0.0;
-				for (int j = i + 1; j <= k; j++)
-					sum += T(i, j) * x[j];
-
-				Real denom = T(i, i) - lambda;
-				if (std::abs(denom) > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					x[i] = -sum / denom;
-				} else {
-					// Near-singular: use small perturbation to avoid division by zero
-					x[i] = -sum / PrecisionValues<Real>::DivisionSafetyThreshold;
-				}
-			}
+			Vector<Real> xi(n, 0.0); // A real eigenvalue has a real eigenvector
+			BackSubstituteQuasiTriangular(T, lambda, 0.0, k, k, x, xi);
 
 			// Normalize
 			Real norm = 0.0;
@@ -921,37 +985,7 @@ namespace MML {
 			// This gives two coupled real equations:
 			// (T - αI) * xr + βI * xi = 0  =>  (T-αI)*xr = -β*xi
 			// (T - αI) * xi - βI * xr = 0  =>  (T-αI)*xi = β*xr
-			for (int i = k - 1; i >= 0; i--) {
-				// sum_r = sum of T[i,j]*xr[j] for j > i
-				// sum_i = sum of T[i,j]*xi[j] for j > i
-				Real sum_r = 0.0;
-				Real sum_i = 0.0;
-				for (int j = i + 1; j <= k + 1; j++) {
-					sum_r += T(i, j) * xr[j];
-					sum_i += T(i, j) * xi[j];
-				}
-
-				// (T[i,i] - α) * xr[i] + β * xi[i] = -sum_r
-				// (T[i,i] - α) * xi[i] - β * xr[i] = -sum_i
-				// Let p = T[i,i] - α
-				// p * xr[i] + β * xi[i] = -sum_r
-				// p * xi[i] - β * xr[i] = -sum_i
-				// Solve 2x2 system:
-				// |p   β | |xr[i]|   |-sum_r|
-				// |-β  p | |xi[i]| = |-sum_i|
-				// det = p² + β²
-
-				Real p = T(i, i) - alpha;
-				Real det = p * p + beta * beta;
-
-				if (det > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					xr[i] = (-sum_r * p - sum_i * beta) / det;
-					xi[i] = (-sum_i * p + sum_r * beta) / det;
-				} else {
-					xr[i] = 0.0;
-					xi[i] = 0.0;
-				}
-			}
+			BackSubstituteQuasiTriangular(T, alpha, beta, k, k + 1, xr, xi);
 
 			// Normalize: ||xr||² + ||xi||² = 1 for each eigenvector
 			Real norm_sq = 0.0;
-- 
2.43.0


From 82ef575ea30006b0e1d080f9e6d99e9675c0535d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:28:36 +0000
Subject: [PATCH 88/95] fix: real and imaginary parts of a complex eigenvector
 are normalized together

Scaling the two columns separately destroyed the eigenvector they represent.
---
 mml/algorithms/EigenSolverHelpers.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index a6c67dd..2f0649a 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -1058,16 +1058,26 @@ namespace MML {
 					result.vectors(row, col) = sum;
 				}
 
-				// Re-normalize after transformation
+			}
+
+			// Re-normalize after transformation. The real and the imaginary part of a complex
+			// eigenvector are scaled together, otherwise col(i) ± i*col(i+1) is no eigenvector.
+			int first = 0;
+			while (first < n) {
+				int last = result.isComplexPair[first] ? first + 1 : first;
+
 				Real norm = 0.0;
-				for (int row = 0; row < n; row++)
-					norm += result.vectors(row, col) * result.vectors(row, col);
+				for (int col = first; col <= last; col++)
+					for (int row = 0; row < n; row++)
+						norm += result.vectors(row, col) * result.vectors(row, col);
 				norm = std::sqrt(norm);
 
 				if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					for (int row = 0; row < n; row++)
-						result.vectors(row, col) /= norm;
+					for (int col = first; col <= last; col++)
+						for (int row = 0; row < n; row++)
+							result.vectors(row, col) /= norm;
 				}
+				first = last + 1;
 			}
 
 			return result;
-- 
2.43.0


From 0dc0fd16dda19bcddc39a046c6f9f93e62cae6a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:28:36 +0000
Subject: [PATCH 89/95] fix: QR steps keep the Hessenberg form exact

Rounding residues left below the subdiagonal leaked into already deflated
subdiagonal elements in later steps and grew there, so converged eigenvalues
lost their eigenvectors.
---
 mml/algorithms/EigenSolverHelpers.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index 2f0649a..ae2fa0f 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -306,6 +306,8 @@ namespace MML {
 					result.H(i, j) = c * t1 + s * t2;
 					result.H(i + 1, j) = -s * t1 + c * t2;
 				}
+				result.H(i, i) = r;
+				result.H(i + 1, i) = 0.0; // Exactly zero, a rounding residue would fill the entries below the subdiagonal
 			}
 
 			// At this point, result.H contains R (upper triangular)
@@ -506,6 +508,11 @@ namespace MML {
 					result.H(k + 1, j) = t1 - tau * v1;
 					result.H(k + 2, j) = t2 - tau * v2;
 				}
+				if (k > iLo) {
+					result.H(k, k - 1) = alpha;
+					result.H(k + 1, k - 1) = 0.0;
+					result.H(k + 2, k - 1) = 0.0;
+				}
 
 				// Apply reflector from right: H * P
 				// H[0:min(k+4,n), k:k+2] = H[...] * (I - 2vv^T)
@@ -561,6 +568,8 @@ namespace MML {
 					result.H(k + 1, j) = c * t1 + s_val * t2;
 					result.H(k + 2, j) = -s_val * t1 + c * t2;
 				}
+				result.H(k + 1, k) = r;
+				result.H(k + 2, k) = 0.0;
 
 				// Apply from right
 				for (int j = 0; j <= std::min(k + 3, iHi); j++) {
-- 
2.43.0


From 87455360a846c3d1889d26c2389b3be9c5eef28a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:28:36 +0000
Subject: [PATCH 90/95] fix: EigenSolver iterates on every unreduced block

When an inner subdiagonal element was negligible, the trailing block was
dropped without being reduced, and wrong eigenvalues were reported as converged.
---
 mml/algorithms/EigenSolverHelpers.h | 43 +++++++++++++++++++
 mml/algorithms/EigenSystemSolvers.h | 64 +++++++++++++----------------
 2 files changed, 72 insertions(+), 35 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index ae2fa0f..5b5cf3c 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -818,6 +818,49 @@ namespace MML {
 			}
 		}
 
+		/// Make a 2x2 diagonal block with real eigenvalues upper triangular.
+		///
+		/// Applies an orthogonal similarity in the plane (k, k+1) to H and accumulates it in Q.
+		/// A block with complex eigenvalues is left as it is.
+		///
+		/// @param H Quasi-upper-triangular (or Hessenberg) matrix, modified in place
+		/// @param Q Accumulated orthogonal transformation, modified in place
+		/// @param k Starting index of the 2x2 block
+		static void SplitReal2x2Block(Matrix<Real>& H, Matrix<Real>& Q, int k) {
+			int n = H.rows();
+			Real c21 = H(k + 1, k);
+			Real p = (H(k, k) - H(k + 1, k + 1)) / 2.0;
+			Real disc = p * p + H(k, k + 1) * c21;
+			if (c21 == 0.0 || disc < 0.0)
+				return;
+
+			// Eigenvector of the block: (λ - d, c) for the eigenvalue that avoids cancellation
+			Real v0 = (p >= 0.0) ? p + std::sqrt(disc) : p - std::sqrt(disc);
+			Real r = std::sqrt(v0 * v0 + c21 * c21);
+			Real c = v0 / r;
+			Real s = c21 / r;
+
+			for (int j = k; j < n; j++) {
+				Real t1 = H(k, j);
+				Real t2 = H(k + 1, j);
+				H(k, j) = c * t1 + s * t2;
+				H(k + 1, j) = -s * t1 + c * t2;
+			}
+			for (int i = 0; i <= k + 1; i++) {
+				Real t1 = H(i, k);
+				Real t2 = H(i, k + 1);
+				H(i, k) = c * t1 + s * t2;
+				H(i, k + 1) = -s * t1 + c * t2;
+			}
+			for (int i = 0; i < n; i++) {
+				Real t1 = Q(i, k);
+				Real t2 = Q(i, k + 1);
+				Q(i, k) = c * t1 + s * t2;
+				Q(i, k + 1) = -s * t1 + c * t2;
+			}
+			H(k + 1, k) = 0.0;
+		}
+
 		// =========================================================================
 		// BUILDING BLOCK 5: EIGENVECTOR COMPUTATION FROM SCHUR FORM
 		// =========================================================================
diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..4aeb64f 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -888,50 +888,42 @@ namespace MML {
 			Matrix<Real> Q = hess.Q; // Accumulated transformation
 
 			// Step 2: QR iteration with deflation
-			int iLo = 0;	 // Start of active region
 			int iHi = n - 1; // End of active region
 			int totalIter = 0;
+			int blockIter = 0; // Iterations since the last deflation
 
-			while (iHi > iLo && totalIter < maxIter) {
-				// Check for deflation at bottom of active region
-				auto defl = EigenSolverHelpers::CheckDeflation(H, iLo, iHi, tol);
+			while (iHi > 0 && totalIter < maxIter) {
+				// The active block [iLo, iHi] starts below the last negligible subdiagonal element
+				int iLo = 0;
+				auto defl = EigenSolverHelpers::CheckDeflation(H, 0, iHi, tol);
 
 				if (defl.canDeflate) {
-					// Apply deflation
 					EigenSolverHelpers::ApplyDeflation(H, defl.deflationIndex);
+					iLo = defl.deflationIndex;
+				}
 
-					// Shrink active region
-					if (defl.deflationIndex == iHi) {
-						iHi--;
-					} else if (defl.deflationIndex == iHi - 1 && defl.blockSize == 2) {
-						iHi -= 2; // 2x2 block deflated
-					} else {
-						// Middle deflation - just continue
-						iHi = defl.deflationIndex - 1;
-					}
+				if (iLo == iHi) {
+					iHi--; // 1x1 block: real eigenvalue
+					blockIter = 0;
+					continue;
+				}
+				if (iLo == iHi - 1) {
+					// 2x2 block: complex pair in final form, or two real eigenvalues that are split here
+					EigenSolverHelpers::SplitReal2x2Block(H, Q, iLo);
+					iHi -= 2;
+					blockIter = 0;
 					continue;
 				}
 
 				// Determine if we should use single or double shift
 				// Check if bottom 2x2 has complex eigenvalues
-				bool useDoubleShift = false;
-				if (iHi >= iLo + 1) {
-					Real a = H(iHi - 1, iHi - 1);
-					Real b = H(iHi - 1, iHi);
-					Real c = H(iHi, iHi - 1);
-					Real d = H(iHi, iHi);
-					auto eig = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d);
-					useDoubleShift = eig.isComplex;
-
-					// Special case: if we have only a 2x2 block with complex eigenvalues,
-					// it's already in final form - we're done with this block
-					if (useDoubleShift && iHi == iLo + 1) {
-						// 2x2 block with complex eigenvalues is irreducible - accept it
-						break;
-					}
-				}
+				Real a = H(iHi - 1, iHi - 1);
+				Real b = H(iHi - 1, iHi);
+				Real c = H(iHi, iHi - 1);
+				Real d = H(iHi, iHi);
+				bool useDoubleShift = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d).isComplex;
 
-				if (useDoubleShift && iHi >= iLo + 2) {
+				if (useDoubleShift) {
 					// Apply Francis double-shift
 					auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true);
 					H = step.H;
@@ -947,8 +939,9 @@ namespace MML {
 					Q = newQ;
 					totalIter += 2; // Double shift counts as 2 iterations
 				} else {
-					// Apply single Wilkinson shift
-					auto step = EigenSolverHelpers::SingleQRStep(H, true);
+					// Apply single Wilkinson shift, taken from the bottom of the active block
+					Real shift = EigenSolverHelpers::WilkinsonShift(a, b, c, d);
+					auto step = EigenSolverHelpers::SingleQRStep(H, true, &shift);
 					H = step.H;
 
 					// Update accumulated Q
@@ -962,9 +955,10 @@ namespace MML {
 					Q = newQ;
 					totalIter++;
 				}
+				blockIter++;
 
 				// Apply exceptional shift if stuck (every 30 iterations without progress)
-				if (totalIter % 30 == 29 && iHi >= 2) {
+				if (blockIter % 30 == 29) {
 					// Exceptional shift to break cycles
 					Real exceptionalShift = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
 					auto step = EigenSolverHelpers::SingleQRStep(H, true, &exceptionalShift);
@@ -997,7 +991,7 @@ namespace MML {
 			// Step 5: Compute residuals and check convergence
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
-			result.converged = (totalIter < maxIter);
+			result.converged = (iHi <= 0);
 
 			// Verify eigenvector quality
 			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-- 
2.43.0


From e66ecad6869061fc7a7a3d602c448e4f8b5ea7c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:28:36 +0000
Subject: [PATCH 91/95] fix: eigenvalue solvers reject a matrix that is not
 square

The solvers read beyond the columns of a matrix with fewer columns than rows.
---
 mml/algorithms/EigenSystemSolvers.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 4aeb64f..4e6f53d 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -200,6 +200,9 @@ namespace MML {
 		/// Solve for a regular Matrix (extracts symmetric part)
 		/// Note: Only use if you're certain the matrix is symmetric!
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 100) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("Eigenvalue problem requires a square matrix", A.rows(), A.cols(), -1, -1);
+
 			// Convert to symmetric matrix (average A and A^T)
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
@@ -233,6 +236,9 @@ namespace MML {
 
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("Eigenvalue problem requires a square matrix", A.rows(), A.cols(), -1, -1);
+
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
@@ -443,6 +449,9 @@ namespace MML {
 
 		// Overload for regular Matrix (will symmetrize)
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("Eigenvalue problem requires a square matrix", A.rows(), A.cols(), -1, -1);
+
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
@@ -475,6 +484,9 @@ namespace MML {
 
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("Eigenvalue problem requires a square matrix", A.rows(), A.cols(), -1, -1);
+
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
@@ -866,6 +878,9 @@ namespace MML {
 		/// - eigenvalues[k] = {λ, μ}, eigenvalues[k+1] = {λ, -μ}
 		/// - eigenvectors.Column(k) = vr, Column(k+1) = vi
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("Eigenvalue problem requires a square matrix", A.rows(), A.cols(), -1, -1);
+
 			int n = A.rows();
 			Result result(n);
 
-- 
2.43.0


From 6923b6c80daf07909caf690e00a076a41f95f608 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:14:05 +0000
Subject: [PATCH 92/95] fix: chi-square and F critical values beyond the
 initial bracket are found

The bisection started on a fixed interval and returned its upper end when the
critical value lies above it, e.g. 100 instead of 161.4 for F(1, 1) at 5%.
---
 mml/algorithms/Statistics/Distributions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 20c8eeb..8d112b6 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -514,6 +514,8 @@ namespace MML
 				// Find x where CDF(x) = 1 - alpha using binary search
 				Real low = 0.0;
 				Real high = mean() + 10.0 * stddev();  // Start with reasonable upper bound
+				while (rightTailPValue(high) > alpha && high < 1e300)
+					high *= 2.0; // The bracket has to contain the critical value
 				Real tolerance = 1e-9;
 				int maxIterations = 100;
 
@@ -699,6 +701,8 @@ namespace MML
         // Binary search for critical value
         Real low = 0.0;
         Real high = 100.0;  // Start with reasonable upper bound
+        while (rightTailPValue(high) > alpha && high < 1e300)
+          high *= 2.0; // The bracket has to contain the critical value
         Real tolerance = 1e-9;
         int maxIterations = 100;
 
-- 
2.43.0


From f3a39906f3fe57fb662c9cbe290b032bade254f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:14:05 +0000
Subject: [PATCH 93/95] fix: chi-square and F densities with one degree of
 freedom are infinite at zero

They returned 0 where the density has its pole, unlike the gamma distribution
with the same parameters.
---
 mml/algorithms/Statistics/Distributions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 8d112b6..15a772f 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -478,7 +478,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < 0.0) return 0.0;
-				if (x == 0.0) return (_df == 2) ? 0.5 : 0.0;
+				if (x == 0.0) return (_df == 1) ? std::numeric_limits<Real>::infinity() : (_df == 2 ? 0.5 : 0.0);
 
 				Real k2 = _df / 2.0;
 				return std::exp((k2 - 1.0) * std::log(x) - x / 2.0 - k2 * std::log(2.0) - std::lgamma(k2));
@@ -655,7 +655,7 @@ namespace MML
       Real pdf(Real x) const
       {
         if (x < 0.0) return 0.0;
-        if (x == 0.0) return (_df1 == 2) ? 1.0 : 0.0;
+        if (x == 0.0) return (_df1 == 1) ? std::numeric_limits<Real>::infinity() : (_df1 == 2 ? 1.0 : 0.0);
 
         Real d1 = _df1 / 2.0;
         Real d2 = _df2 / 2.0;
-- 
2.43.0


From 1198c681ae988a21c71cc4e271c25f1518ae4deb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:14:05 +0000
Subject: [PATCH 94/95] fix: t quantiles far in the tail converge

Newton's method needs more than 10 steps from the normal quantile when there
are few degrees of freedom; the unconverged iterate was returned.
---
 mml/algorithms/Statistics/Distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 15a772f..a648678 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -309,7 +309,7 @@ namespace MML
 				Real t = StandardNormal::inverseCdf(p);
 				
 				// Refine with Newton-Raphson
-				for (int iter = 0; iter < 10; iter++) {
+				for (int iter = 0; iter < 100; iter++) {
 					Real f = cdf(t) - p;
 					Real fprime = pdf(t);
 					
-- 
2.43.0


From 4f13f7afbf966fb4611f700f29bd9b53adadd18c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:21:26 +0000
Subject: [PATCH 95/95] fix: gamma and beta quantiles below 1e-10 are found

---
 mml/algorithms/Statistics/Distributions.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index a648678..b4cddd2 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -1077,8 +1077,8 @@ namespace MML
 					Real fp = pdf(x);
 					if (std::abs(fp) < 1e-30) break;
 					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
+					Real next = x - dx;
+					x = (next > 0.0) ? next : 0.1 * x;   // a step out of the domain: go down by decades
 					if (std::abs(dx) < 1e-12 * x) break;
 				}
 				return x;
@@ -1231,10 +1231,11 @@ namespace MML
 					Real fp = pdf(x);
 					if (std::abs(fp) < 1e-30) break;
 					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (x >= 1.0) x = 1.0 - 1e-10;
-					if (std::abs(dx) < 1e-12) break;
+					Real next = x - dx;
+					if (next <= 0.0) next = 0.1 * x;                  // a step out of the domain:
+					if (next >= 1.0) next = 1.0 - 0.1 * (1.0 - x);    // approach the end by decades
+					x = next;
+					if (std::abs(dx) < 1e-12 * x) break;
 				}
 				return x;
 			}
-- 
2.43.0

