From eb2011e29488adb884442d3ef084b5d7c63ba269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 01/12] fix: sub_matrix must reject regions that extend past
 the last row or column

Only the extent of the region was compared with the matrix dimensions, so a
region starting at an offset could run over the right edge and silently wrap
into the following row.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From 19b4532b9858b7074449c913378003b02775ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 02/12] fix: vector_p_norm must raise the absolute value to the
 power p

powf of a negative element with a non-integer exponent is NaN; taking abs()
afterwards does not help.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..1a1c142 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -821,7 +821,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From e382acb15e9bd7016244647ce2e4eec5060e6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/12] fix: LU singularity test and solve must reject
 non-square systems

For a wide matrix the test indexed past the factor data; for a tall matrix
solve returned a right-hand-side shaped matrix that is not a solution.
---
 src/decomp/lu.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index c08bb21..6319801 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -172,6 +172,7 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
   }
 
   pub fn is_non_singular(&self) -> bool {
+    assert!(self.lu.rows() == self.lu.cols());
     let n = self.lu.cols();
     for j in 0..n {
       if self.lu.get_data()[j * n + j].clone() == num::zero() {
-- 
2.43.0


From 77aaeea28fcdb5306af982dbe499b770cfda1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/12] fix: QR solve must scale its reflections like the
 factorisation does

The Householder vectors are stored unnormalised, so applying a reflection needs
the factor <x,u> / (rdiag[k] * u[k]), as in the constructor and get_q.
---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..882a5d5 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -215,7 +215,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = - s / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
-- 
2.43.0


From 7f160840e56495cec393ba527caed2dc69b82333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/12] fix: QR least squares solve must not panic for
 overdetermined systems

The m-by-nx work buffer was handed unchanged to the n-by-nx result matrix.
---
 src/decomp/qr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 882a5d5..c1a0658 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -234,6 +234,8 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
+    // Only the first n rows hold the solution when the system is overdetermined.
+    xdata.truncate(n * nx);
     Some(Matrix::new(self.qr.cols(), b.cols(), xdata))
   }
 }
-- 
2.43.0


From 210768117312c45b42f32814450386b6eb427655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/12] fix: QR is_full_rank must not index out of bounds for
 wide matrices

Only min(m, n) diagonal elements are stored; a matrix with more columns than
rows does not have full column rank.
---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index c1a0658..0fff96a 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -107,7 +107,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
 
   pub fn is_full_rank(&self) -> bool {
     for j in 0..self.qr.cols() {
-      if self.rdiag[j].clone() == num::zero() {
+      if j >= self.rdiag.len() || self.rdiag[j].clone() == num::zero() {
         return false;
       }
     }
-- 
2.43.0


From 117542de9d058cd1c67bf7e65f097ed49955dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 07/12] fix: QR get_q must start from the full m-by-m identity

For m > n the last m - n columns of Q were all zero, so Q was not orthogonal.
---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0fff96a..bc8eb26 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,7 +154,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
+    for minor in 0..m {
       qdata[minor * m + minor] = num::one();
     }
 
-- 
2.43.0


From a8e6296c16c155039ef563ce43bcfffc66212ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/12] fix: SVD rank must not index past the last singular
 value

S is m-by-n; for m > n the loop over its rows ran off the diagonal and panicked.
---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..feb1e3e 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -441,7 +441,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From cb1eee7014b6a59818b5cbd562345c2d3d54b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/12] fix: EigenDecomposition must reject non-square matrices

A tall matrix was accepted and the decomposition of its top square block
returned.
---
 src/decomp/eigen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..44c87b1 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -753,6 +753,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
   }
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
+    assert!(a.rows() == a.cols());
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-- 
2.43.0


From dfa4f0794d07343e622354fbeed0c734b06537c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 10/12] fix: Cholesky must not accept a NaN pivot

Every comparison with NaN is false, so d <= 0 let a NaN pivot through and a
factor full of NaN was returned as a valid decomposition.
---
 src/decomp/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/cholesky.rs b/src/decomp/cholesky.rs
index ba7c593..e9ad277 100755
--- a/src/decomp/cholesky.rs
+++ b/src/decomp/cholesky.rs
@@ -94,7 +94,7 @@ impl<T : Float + ApproxEq<T>> CholeskyDecomposition<T> {
       // Solve L[j][j]. (Diagonals).
       // L[j][j] = sqrt(A[j][j] - SUM { L[j][0 .. (j - 1)]^2 }).
       d = m.get(j, j) - d;
-      if d <= num::zero() {
+      if !(d > num::zero()) {
         // A is not positive definite; Cholesky decomposition does not exists.
         return None
       }
-- 
2.43.0


From 7ef6565dffd1e03d8c410484d182f3891c0215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 11/12] fix: m! must reject rows of different lengths

Only the total number of elements was used, so ragged rows whose total happened
to be divisible by the row count were silently reshaped.
---
 src/macros.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..ddc7433 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -18,6 +18,7 @@ macro_rules! m_rec(
   ( [ $($row:tt),* ] [$($i:expr),*]) => ({
      let _rows = 0 $(+ m_one!($row) )*;
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     $( m_row!(_cols, $row); )*
      Matrix::new(
        _rows,
        _cols,
@@ -26,6 +27,12 @@ macro_rules! m_rec(
   })
 );
 
+/// Helper macro for m!: checks that a row has as many elements as the others.
+#[macro_export]
+macro_rules! m_row {
+  ( $cols:expr, [ $($i:expr),* ] ) => ( assert!((0 $(+ m_one!($i))*) == $cols) )
+}
+
 /// Macro for building matrices.
 #[macro_export]
 macro_rules! m {
-- 
2.43.0


From de5f54e977fa77f8b141d92623217a144ed7e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 12/12] fix: id, zero, zero_vector, one_vector and random must
 reject empty dimensions

Matrix::new refuses zero rows or columns because the number of columns is
derived by dividing by the number of rows; these constructors bypassed it and
returned matrices on which cols() divides by zero.
---
 src/matrix.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1a1c142..5b6d40e 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -118,7 +118,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..cmp::min(m, n) {
       d[i * n + i] = num::one();
     }
-    Matrix { no_rows : m, data : d }
+    Matrix::new(m, n, d)
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
@@ -127,10 +127,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..elems {
       d[i] = num::zero();
     }
-    Matrix {
-      no_rows : no_rows,
-      data : d
-    }
+    Matrix::new(no_rows, no_cols, d)
   }
 
   pub fn diag(data : Vec<T>) -> Matrix<T> {
@@ -167,7 +164,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..no_rows {
       d[i] = num::zero();
     }
-    Matrix { no_rows : no_rows, data : d }
+    Matrix::vector(d)
   }
 
   pub fn one_vector(no_rows : usize) -> Matrix<T> {
@@ -175,7 +172,7 @@ impl<T : Num + Copy> Matrix<T> {
     for i in 0..no_rows {
       d[i] = num::one();
     }
-    Matrix { no_rows : no_rows, data : d }
+    Matrix::vector(d)
   }
 }
 
@@ -574,7 +571,7 @@ impl<T : Rand + Copy> Matrix<T> {
     for i in 0..elems {
       d[i] = rand::random::<T>();
     }
-    Matrix { no_rows : no_rows, data : d }
+    Matrix::new(no_rows, no_cols, d)
   }
 }
 
-- 
2.43.0

