From 49074f40255b0b7f4bca3e9c58bdc2c2226edc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 01/63] fix: check the sizes of CooMatrix/LilMatrix::MultAT the
 right way around

The assertions compared the input with the columns and the output with the rows,
so the transposed product of every rectangular matrix was refused.
---
 include/coomatrix.hpp | 4 ++--
 include/lilmatrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..a66eeab 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -654,8 +654,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..d78cd4d 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -434,8 +434,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
-- 
2.43.0


From eb4b1f5b5bdfbe222a71f5ff4145e1936cd8a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 02/63] fix: CooMatrix without a declared size reports the size
 of its entries

Rows() and Cols() returned 0, so it could be converted but never multiplied.
---
 include/coomatrix.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index a66eeab..90afb6f 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows.
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the maximum element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns.
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the maximum element
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -302,6 +320,24 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    int rows;
+    std::tie(rows, std::ignore) = FindSize();
+
+    return rows;
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    int cols;
+    std::tie(std::ignore, cols) = FindSize();
+
+    return cols;
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
-- 
2.43.0


From d98a960f9f116d9f4be47b35198c31c7275538f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 03/63] fix: LilMatrix without a declared size has no extra row

entries_.size() is already the number of rows, so ToSparse returned one row too many
with a row pointer that ended in 0.
---
 include/lilmatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index d78cd4d..ad1a58a 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -500,7 +500,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         return std::tuple<int, int> {rows_, cols_};
     }
 
-    const int rows = entries_.size();
+    const int rows = std::max<int>(entries_.size(), 1);
     int cols = 0;
 
     for (const auto& row : entries_)
@@ -511,7 +511,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols + 1};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 9a55423b2506230d02689bc1a90d2ba79223a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 04/63] fix: LilMatrix::SetSize allocates the rows it declares

Add wrote past the row array and ToSparse left the row pointer of the new rows at 0.
---
 include/lilmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index ad1a58a..cae6ff9 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -253,6 +253,8 @@ void LilMatrix<T>::SetSize(int rows, int cols)
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows_);
 }
 
 template <typename T>
-- 
2.43.0


From 8c1b173e809a779886968eaa7d38c6126293a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 05/63] fix: CooMatrix/LilMatrix::EliminateZeros removes zeros

With the default tolerance of 0 the strict comparison removed nothing; entries no
larger than the tolerance are now dropped, as SparseMatrix::EliminateZeros does.
---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 90afb6f..8ea4d28 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -728,7 +728,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index cae6ff9..c936bb7 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -488,7 +488,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From e6bb1bd711758e5ce64e8070a26d5f4515a5ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 06/63] fix: moved-from CooMatrix/LilMatrix has no
 indeterminate size flag

The move constructor swapped an uninitialised bool into the source.
---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 8ea4d28..aacbd48 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -299,6 +299,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index c936bb7..d97cb00 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 4f59e882c0700ebca102a3db57ab046e51952c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 07/63] fix: dense products of matrices with zero rows or
 columns

---
 src/densematrix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..8423f1c 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -254,6 +254,12 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
     double* c = output.data_.data();
     int ldc = output.Rows();
 
+    // BLAS rejects zero leading dimensions
+    if (m == 0 || n == 0 || k == 0)
+    {
+        output = 0.0;
+        return;
+    }
 
     dgemm_(&transA, &transB, &m, &n, &k,
            &alpha, A, &lda, B, &ldb,
-- 
2.43.0


From 9e4c72ad8ab476b8e0d3acddfc4eb2130296193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 08/63] fix: DenseMatrix::QR of matrices with more columns than
 rows

---
 src/densematrix.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 8423f1c..43418ef 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -661,12 +661,17 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
     dgeqp3_(m, n, A, lda, jpvt.data(), tau.data(), work.data(), &lwork, &info);
 
+    // Q has at most rows orthonormal columns
+    SetSize(rows, mn_min);
+    A = data_.data();
+    n = &mn_min;
+
     const int* k = &mn_min;
 
     lwork = -1;
-- 
2.43.0


From 902a0e662df41101bf1120e5d791a596fe9d6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 09/63] fix: EigenSolver with more eigenvectors requested than
 the matrix has

---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..4bad87c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From 8c193627fc06ff868ce4abca3eacadbac962902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 10/63] fix: define the declared operator/(double, DenseMatrix)

---
 src/densematrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 43418ef..381e1ea 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -343,6 +343,16 @@ DenseMatrix operator/(DenseMatrix lhs, double val)
     return lhs /= val;
 }
 
+DenseMatrix operator/(double val, DenseMatrix rhs)
+{
+    for (auto& i : rhs.data_)
+    {
+        i = val / i;
+    }
+
+    return rhs;
+}
+
 DenseMatrix& DenseMatrix::operator=(double val)
 {
     std::fill(begin(data_), end(data_), val);
-- 
2.43.0


From eb8bc7db7de8515c66a626cb9ba6f173268488bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 11/63] fix: Add and Sub into a vector do not read its previous
 entries

---
 include/vectorview.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..17707f1 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -838,7 +838,15 @@ void Add(T alpha, const VectorView<T>& x, T beta, const VectorView<T>& y, T gamm
 template <typename T>
 void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, 1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] + y[i];
+    }
 }
 
 /*! @brief Compute z = x - y
@@ -849,7 +857,15 @@ void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 template <typename T>
 void Sub(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, -1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] - y[i];
+    }
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From f9ff876ecfcb5dd704dee2af7d2e62aa5f257b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 12/63] fix: declare the specialization of
 VectorView<double>::Normalize

---
 include/vectorview.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 17707f1..3b38214 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,9 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From 7de312815ea8efe42efeb2a605e405dbc5cf2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 13/63] fix: EigenSolver eigenvectors of decoupled and zero
 matrices

dstein was told the tridiagonal matrix is one block, which gives
not-a-number for a zero matrix and non-orthogonal vectors when tiny
off-diagonals decouple it. dstemr finds the blocks itself.
---
 include/eigensolver.hpp |  7 +++---
 src/eigensolver.cpp     | 48 ++++++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/include/eigensolver.hpp b/include/eigensolver.hpp
index 24ccaed..8247702 100644
--- a/include/eigensolver.hpp
+++ b/include/eigensolver.hpp
@@ -100,10 +100,9 @@ class EigenSolver
         std::vector<double> e_;
         std::vector<double> tau_;
 
-        // Block info for dstein_ / dormtr_
-        std::vector<int> iblock_;
-        std::vector<int> isplit_;
-        std::vector<int> ifail_;
+        // Eigenvalues and eigenvector support for dstemr_
+        std::vector<double> w_;
+        std::vector<int> isuppz_;
 };
 
 } //namespace linalgcpp
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 4bad87c..659e848 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -13,11 +13,12 @@ extern "C"
 
     void dsterf_(const int* n, double* d, double* e, int* info);
 
-    void dstein_(const int* n, const double* d, const double* e,
-                 int* m, const double* w, const int* iblock,
-                 const int* isplit, double* z, const int* ldz,
-                 double* work, int* iwork, int* ifailv,
-                 int* info);
+    void dstemr_(const char* jobz, const char* range, const int* n,
+                 double* d, double* e, const double* vl, const double* vu,
+                 const int* il, const int* iu, int* m, double* w,
+                 double* z, const int* ldz, const int* nzc, int* isuppz,
+                 int* tryrac, double* work, const int* lwork,
+                 int* iwork, const int* liwork, int* info);
 
     void dormtr_(char* side, char* uplo, char* trans, const int* m,
                  const int* n, const double* a, const int* lda,
@@ -86,7 +87,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
             &lwork_, &info_ );
 
     // d_ and e_ changed by dsterf_
-    // copy since they are needed for dstein_
+    // copy since they are needed for dstemr_
     std::copy_n(std::begin(d_), n, std::begin(evals));
     auto e_copy = e_;
 
@@ -108,18 +109,22 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
         ++m;
     }
 
-    ifail_.resize(m);
-    isplit_[0] = n;
-
     evects.SetSize(n, m);
     //std::vector<double> evect_data(n * m);
 
-    // Calculate Eigenvectors of T
-    dstein_(&n, d_.data(), e_.data(),
-            &m, evals.data(), iblock_.data(),
-            isplit_.data(), evects.GetData(), &n,
-            work_.data(), iwork_.data(), ifail_.data(),
-            &info_);
+    // Calculate Eigenvectors of T, it may decouple into several blocks
+    const char jobz = 'V';
+    const char range = 'I';
+    const double unused = 0.0;
+    const int first = 1;
+    const int liwork = iwork_.size();
+    int num_found = 0;
+    int tryrac = 1;
+
+    dstemr_(&jobz, &range, &n, d_.data(), e_.data(), &unused, &unused,
+            &first, &m, &num_found, w_.data(), evects.GetData(), &n, &m,
+            isuppz_.data(), &tryrac, work_.data(), &lwork_,
+            iwork_.data(), &liwork, &info_);
 
     // Compute Q * (eigenvectors of T)
     dormtr_(&side_, &uplo_, &trans_, &n,
@@ -141,13 +146,13 @@ void EigenSolver::AllocateWorkspace(int size)
     int lwork = -1;
     double wkopt;
 
-    // find max workspace between dsytrd_, dstein_ and dormtr_
+    // find max workspace between dsytrd_, dstemr_ and dormtr_
     dsytrd_(&uplo_, &size, nullptr, &size,
             d_.data(), e_.data(), tau_.data(), &wkopt,
             &lwork, &info_ );
 
-    // 5n is for dstein_
-    lwork_ = std::max(5 * size, (int)wkopt);
+    // 18n is for dstemr_
+    lwork_ = std::max(18 * size, (int)wkopt);
 
     dormtr_(&side_, &uplo_, &trans_, &size,
             &size, nullptr, &size,
@@ -157,15 +162,14 @@ void EigenSolver::AllocateWorkspace(int size)
     lwork_ = std::max(lwork_, (int)wkopt);
 
     work_.resize(lwork_);
-    iwork_.resize(size);
+    iwork_.resize(10 * size);
 
     d_.resize(size);
     e_.resize(size);
     tau_.resize(size);
 
-    iblock_.resize(size, 1);
-    isplit_.resize(size, 0);
-    iwork_.resize(size);
+    w_.resize(size);
+    isuppz_.resize(2 * size);
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 6cb8888ab2f0860ca025d5a5c470a863751d329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 14/63] fix: BlockMatrix::Transpose transposes its blocks and
 keeps unset ones

---
 include/blockmatrix.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..374e084 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,13 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& mat = GetBlock(i, j);
+
+            // Blocks that were never set have no size
+            if (mat.Rows() > 0 || mat.Cols() > 0)
+            {
+                transpose.SetBlock(j, i, mat.Transpose());
+            }
         }
     }
 
-- 
2.43.0


From 89e3fa9318f9fc0f4151774ea3c3464b16a690c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 15/63] fix: BlockMatrix::Combine keeps the entry type

---
 include/blockmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 374e084..ec40294 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -242,7 +242,7 @@ SparseMatrix<T> BlockMatrix<T>::Combine() const
 
     std::vector<int> indptr(rows_ + 1);
     std::vector<int> indices(nnz);
-    std::vector<double> data(nnz);
+    std::vector<T> data(nnz);
 
     indptr[0] = 0;
 
-- 
2.43.0


From 349c4089b39dc3e1afb1bcb7abd9aa85fddda86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 16/63] fix: PCG iteration count, limit and zero tolerance

---
 src/solvers.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..bef87de 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,16 +169,18 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
-    //if ((*Dot_)(r_, r_) < tol_tol)
+    if ((*Dot_)(z_, r_) <= tol_tol)
+    //if ((*Dot_)(r_, r_) <= tol_tol)
     {
         return;
     }
 
-    do
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -209,7 +211,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
@@ -219,7 +221,6 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From e1df6747673755e5489a0c48337e2764244c1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 17/63] fix: MINRES/PMINRES exact initial guesses, zero
 tolerance and iteration count

---
 src/solvers.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index bef87de..914aefa 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -308,8 +308,17 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         A_->Mult(v1_, q_);
 
@@ -351,7 +360,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -458,8 +467,17 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         u1_ /= beta;
 
@@ -504,7 +522,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From f7b2260599f88afc87b14c9876cf3193b9df1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 18/63] fix: MINRES/PMINRES compare residual norms with the
 tolerances, not their squares

---
 src/solvers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 914aefa..a17fe89 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -306,7 +306,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     num_iter_ = 0;
 
@@ -465,7 +465,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     num_iter_ = 0;
 
-- 
2.43.0


From 2bc0fe134b09ce194199d3d14ad92b5b9d44defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 19/63] fix: apply preconditioners from a zero starting guess

---
 src/solvers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index a17fe89..12c76bf 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -155,6 +155,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     if (M_)
     {
+        z_ = 0.0;
         M_->Mult(r_, z_);
     }
     else
@@ -197,6 +198,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
         if (M_)
         {
+            z_ = 0.0;
             M_->Mult(r_, z_);
         }
         else
@@ -454,6 +456,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
     v1_ = b;
     v1_ -= q_;
 
+    u1_ = 0.0;
     M_->Mult(v1_, u1_);
 
     double beta = std::sqrt((*Dot_)(u1_, v1_));
@@ -494,6 +497,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
         const double rho3 = sigma * beta;
         const double rho2 = sigma2 * alpha + gamma * gamma2 * beta;
 
+        q_ = 0.0;
         M_->Mult(v0_, q_);
         beta = std::sqrt((*Dot_)(v0_, q_));
 
-- 
2.43.0


From b619d8e5a0149ff562097451711ed5f35acc28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 20/63] fix: WriteCooList writes 16 digits and any entry type

---
 include/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..d6ce44a 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -370,10 +370,12 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
 
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
+    file.precision(16);
+
     for (int i = 0; i < rows; ++i)
     {
         for (int j = indptr[i]; j < indptr[i + 1]; ++j)
-- 
2.43.0


From 9092320401bf30cfc522c22a931f19c588508500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 21/63] fix: WriteMTX writes the Matrix Market banner

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index d6ce44a..9b7b168 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -710,7 +710,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     int nnz = mat.nnz();
 
     file.precision(16);
-    file << "%MatrixMarket matrix coordinate real general\n";
+    file << "%%MatrixMarket matrix coordinate real general\n";
     file << rows << " " << cols << " " << nnz <<  "\n";
 
     const std::vector<int>& indptr = mat.GetIndptr();
-- 
2.43.0


From 9c14afc6cb29b93b46ba0b0d2c3af9dd67eace85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 22/63] fix: ReadTable of a table without entries

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 9b7b168..93b85d9 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -429,7 +429,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From 2a3c56b795804bb0612fdda31625c6c054a124ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 23/63] fix: binary readers report files that end early

---
 include/parser.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 93b85d9..a00570c 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -105,9 +105,20 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
     size_t size = 0;
     file.read(reinterpret_cast<char*>(&size), sizeof(size));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     std::vector<T> vect(size);
 
-    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     file.close();
 
     return vect;
@@ -175,13 +186,23 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(&cols), sizeof(cols));
     file.read(reinterpret_cast<char*>(&nnz), sizeof(nnz));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     std::vector<int> indptr(rows + 1);
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
-    file.read(reinterpret_cast<char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
-    file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
+    file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
+    file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
 
     file.close();
 
-- 
2.43.0


From 5ca20820560086d1f477e35fa78826b6f99d000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 24/63] fix: writers report data the storage refused

---
 include/parser.hpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index a00570c..6c9a76c 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -60,6 +60,13 @@ void WriteText(const T& vect, const std::string& file_name)
     {
         file << val << "\n";
     }
+
+    file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Write a vector to a text file on disk in binary format
@@ -84,6 +91,11 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Read a vector to a text file on disk in binary format
@@ -159,6 +171,11 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Read a csr matrix from a text file on disk in binary format
@@ -327,6 +344,11 @@ void WriteAdjList(const SparseMatrix<T>& mat, const std::string& file_name, bool
     }
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Read a coordinate list from disk.
@@ -411,6 +433,11 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
     }
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Read a table from file from disk.
@@ -491,6 +518,11 @@ void WriteTable(const SparseMatrix<T>& mat, const std::string& file_name)
     }
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Read a CSR Matrix from disk.
@@ -585,6 +617,11 @@ void WriteCSR(const SparseMatrix<T>& mat, const std::string& file_name)
     }
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 /*! @brief Read matrix market coordinate format from disk.
@@ -747,6 +784,11 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     }
 
     file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
 }
 
 } // namespace mylinalg
-- 
2.43.0


From ee60d7390ebefc26eccbf5ec78aadbca6f4afe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 25/63] fix: ReadMTX symmetry comes from the banner,
 skew-symmetric negates

---
 include/parser.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 6c9a76c..a5493de 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -4,7 +4,9 @@
 
 #include <memory>
 #include <vector>
+#include <algorithm>
 #include <assert.h>
+#include <cctype>
 #include <fstream>
 
 #include "vector.hpp"
@@ -645,11 +647,19 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     }
 
     bool symmetric = false;
+    bool skew = false;
     std::string line;
 
     while (getline(file, line) && line.size() && line[0] == '%')
     {
-        symmetric |= (line.find("symmetric") != std::string::npos);
+        // Only the banner states the symmetry, in any case; comments do not
+        std::transform(begin(line), end(line), begin(line), ::tolower);
+
+        if (line.find("matrixmarket") <= 2)
+        {
+            symmetric = (line.find("symmetric") != std::string::npos);
+            skew = (line.find("skew-symmetric") != std::string::npos);
+        }
     }
 
     int rows;
@@ -673,7 +683,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
         if (symmetric && i != j)
         {
-            coo.Add(j - base, i - base, val);
+            coo.Add(j - base, i - base, skew ? -val : val);
         }
     }
 
@@ -707,7 +717,13 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
     while (getline(file, line) && line.size() && line[0] == '%')
     {
-        symmetric |= (line.find("symmetric") != std::string::npos);
+        // Only the banner states the symmetry, in any case; comments do not
+        std::transform(begin(line), end(line), begin(line), ::tolower);
+
+        if (line.find("matrixmarket") <= 2)
+        {
+            symmetric = (line.find("symmetric") != std::string::npos);
+        }
     }
 
     int rows;
-- 
2.43.0


From 0c7008318375c624c7f2a6ccea3a757a6d0d1b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 26/63] fix: ReadMTX skips blank lines before the size line

---
 include/parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index a5493de..83e770f 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -650,7 +650,8 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     bool skew = false;
     std::string line;
 
-    while (getline(file, line) && line.size() && line[0] == '%')
+    while (getline(file, line) &&
+            (line.find_first_not_of(" \t\r") == std::string::npos || line[0] == '%'))
     {
         // Only the banner states the symmetry, in any case; comments do not
         std::transform(begin(line), end(line), begin(line), ::tolower);
@@ -715,7 +716,8 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     bool symmetric = false;
     std::string line;
 
-    while (getline(file, line) && line.size() && line[0] == '%')
+    while (getline(file, line) &&
+            (line.find_first_not_of(" \t\r") == std::string::npos || line[0] == '%'))
     {
         // Only the banner states the symmetry, in any case; comments do not
         std::transform(begin(line), end(line), begin(line), ::tolower);
-- 
2.43.0


From c13773534e36cdb0604599676edf496c26e66b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 27/63] fix: ArgParser reports arguments without a flag instead
 of aborting

---
 src/argparser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/argparser.cpp b/src/argparser.cpp
index 0665c54..4ea7255 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -25,13 +25,17 @@ ArgParser::ArgParser(int argc, const char* const* argv)
         };
 
         entries.push_back(argv[i]);
-        assert(entries.back().size() > 0);
     }
 
     for (auto iter = entries.begin(); iter != entries.end(); /* empty */)
     {
-        assert(iter->size() > 0);
-        assert((*iter)[0] == '-');
+        if (iter->empty() || (*iter)[0] != '-')
+        {
+            errors_.push_back(*iter + " does not follow a flag!");
+
+            iter += 1;
+            continue;
+        }
 
         // Regular flagged value
         if ((iter + 1) != entries.end() && !IsFlag(*(iter + 1)))
-- 
2.43.0


From 94a9dbff2f2de14c9fbc8a24f4fefb6db4294602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 28/63] fix: ArgParser reports missing and unparsable values
 and keeps the default

---
 include/argparser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 5128289..0860f09 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -77,7 +77,17 @@ void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help)
 
     if (values_.find(flag) != values_.end())
     {
-        std::stringstream(values_[flag]) >> arg;
+        std::stringstream ss(values_[flag]);
+        T value(arg);
+
+        if (ss >> value && (ss >> std::ws).eof())
+        {
+            arg = value;
+        }
+        else
+        {
+            errors_.push_back(flag + " has invalid value \"" + values_[flag] + "\"!");
+        }
     }
 
     if (seen_values_.find(flag) == seen_values_.end())
-- 
2.43.0


From c698040b1b9ab77be01e1adfb20461cccf267c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 29/63] fix: ArgParser string options take the whole argument

---
 include/argparser.hpp |  3 +++
 src/argparser.cpp     | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 0860f09..14e249f 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -70,6 +70,9 @@ class ArgParser
 template <>
 void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& help) const;
 
+template <>
+void ArgParser::Parse(std::string& arg, const std::string& flag, const std::string& help) const;
+
 template <typename T>
 void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help) const
 {
diff --git a/src/argparser.cpp b/src/argparser.cpp
index 4ea7255..62df897 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -146,6 +146,33 @@ void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& hel
     }
 }
 
+template <>
+void ArgParser::Parse(std::string& arg, const std::string& flag, const std::string& help) const
+{
+    help_[flag] = help;
+
+    if (values_.find(flag) != values_.end())
+    {
+        if (values_[flag].size() > 0)
+        {
+            arg = values_[flag];
+        }
+        else
+        {
+            errors_.push_back(flag + " has no value!");
+        }
+    }
+
+    if (seen_values_.find(flag) == seen_values_.end())
+    {
+        seen_values_[flag] = arg;
+    }
+    else
+    {
+        errors_.push_back(flag + " requested to be parsed multiple times!");
+    }
+}
+
 bool ArgParser::IsGood() const
 {
     return (errors_.size() == 0 && !need_help_);
-- 
2.43.0


From 944f4a80a81f37e1d88ab5582e4f3263cadbf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 30/63] fix: MakeAdjacencyInfo of graphs with fewer entries
 than vertices

---
 modules/partition/include/partition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..e7fc5ac 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,7 +17,7 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
+    const int num_edges = mat.nnz();
 
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
-- 
2.43.0


From 2a7185b5b9b6f9959fba14a1ef1c2e179f380c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 31/63] fix: SparseSolver copies and moves start without a
 factorisation

---
 modules/sparsesolver/src/sparsesolve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index b354fd5..fa11eda 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -18,7 +18,7 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
 }
 
 SparseSolver::SparseSolver(const SparseSolver& other) noexcept
-    : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
+    : Operator(other), A_(other.A_), numeric_(nullptr), control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
     {
@@ -27,6 +27,7 @@ SparseSolver::SparseSolver(const SparseSolver& other) noexcept
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
+    : numeric_(nullptr)
 {
     swap(*this, other);
 }
-- 
2.43.0


From a06d3d533f7166f7ba0148d7b004b64151099920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 32/63] fix: VectorView::operator[] rejects negative indices in
 debug builds

---
 include/vectorview.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 3b38214..61a085e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -319,6 +319,7 @@ const T* VectorView<T>::end() const
 template <typename T>
 T& VectorView<T>::operator[](int i)
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
@@ -327,6 +328,7 @@ T& VectorView<T>::operator[](int i)
 template <typename T>
 const T& VectorView<T>::operator[](int i) const
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
-- 
2.43.0


From db8cd0fc732ad736df85ab71fbfbe10c4ca2fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 33/63] fix: BlockVector::GetBlock checks the block against the
 blocks and the data

---
 include/blockvector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 9751a64..fec64ab 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -130,7 +130,9 @@ const std::vector<int>& BlockVector<T>::GetOffsets() const
 template <typename T>
 VectorView<T> BlockVector<T>::GetBlock(int block)
 {
+    assert(block >= 0);
     assert(block < static_cast<int>(offsets_.size()) - 1);
+    assert(offsets_[block + 1] <= Vector<T>::size());
 
     T* data = Vector<T>::begin() + offsets_[block];
     int size = offsets_[block + 1] - offsets_[block];
@@ -141,7 +143,9 @@ VectorView<T> BlockVector<T>::GetBlock(int block)
 template <typename T>
 const VectorView<T> BlockVector<T>::GetBlock(int block) const
 {
+    assert(block >= 0);
     assert(block < static_cast<int>(offsets_.size()) - 1);
+    assert(offsets_[block + 1] <= Vector<T>::size());
 
     T* data = const_cast<T*>(Vector<T>::begin() + offsets_[block]);
     int size = offsets_[block + 1] - offsets_[block];
-- 
2.43.0


From f40b643a319cc434170574453af780d0c74e72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 34/63] fix: BlockMatrix and BlockOperator reject negative
 block indices in debug builds

---
 include/blockmatrix.hpp | 4 ++++
 src/blockoperator.cpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index ec40294..4c2fc3b 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -184,6 +184,8 @@ const std::vector<int>& BlockMatrix<T>::GetColOffsets() const
 template <typename T>
 const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
@@ -193,6 +195,8 @@ const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 template <typename T>
 void BlockMatrix<T>::SetBlock(int i, int j, SparseMatrix<T> mat)
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index a7cc0a4..0aa0428 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -66,6 +66,8 @@ const std::vector<int>& BlockOperator::GetColOffsets() const
 
 const Operator* BlockOperator::GetBlock(int i, int j) const
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
@@ -74,6 +76,8 @@ const Operator* BlockOperator::GetBlock(int i, int j) const
 
 void BlockOperator::SetBlock(int i, int j, const Operator& op)
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
-- 
2.43.0


From 1e90533104741c5b0c6226a370aad388dbac46cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 35/63] fix: dense ranges may be empty at the end of the matrix

---
 src/densematrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 381e1ea..eec0419 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -466,8 +466,8 @@ DenseMatrix DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int e
 
 void DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int end_j, DenseMatrix& dense) const
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -522,8 +522,8 @@ void DenseMatrix::SetSubMatrix(int start_i, int start_j, const DenseMatrix& dens
 
 void DenseMatrix::SetSubMatrix(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -547,8 +547,8 @@ void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, const DenseMat
 
 void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
-- 
2.43.0


From e7f5e76306852b258ce836c9f0ec5b28eded40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 36/63] fix: DenseMatrix row and column scaling checks the
 number of scales

---
 include/densematrix.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/densematrix.hpp b/include/densematrix.hpp
index b1d36e4..3ee3e26 100644
--- a/include/densematrix.hpp
+++ b/include/densematrix.hpp
@@ -791,6 +791,8 @@ void DenseMatrix::SetRow(int row, const VectorView<T>& vect)
 template <typename T>
 void DenseMatrix::ScaleRows(const T& values)
 {
+    assert(static_cast<int>(values.size()) == rows_);
+
     for (int j = 0; j < cols_; ++j)
     {
         for (int i = 0; i < rows_; ++i)
@@ -803,6 +805,8 @@ void DenseMatrix::ScaleRows(const T& values)
 template <typename T>
 void DenseMatrix::ScaleCols(const T& values)
 {
+    assert(static_cast<int>(values.size()) == cols_);
+
     for (int j = 0; j < cols_; ++j)
     {
         const double scale = values[j];
@@ -817,6 +821,8 @@ void DenseMatrix::ScaleCols(const T& values)
 template <typename T>
 void DenseMatrix::InverseScaleRows(const T& values)
 {
+    assert(static_cast<int>(values.size()) == rows_);
+
     for (int j = 0; j < cols_; ++j)
     {
         for (int i = 0; i < rows_; ++i)
@@ -831,6 +837,8 @@ void DenseMatrix::InverseScaleRows(const T& values)
 template <typename T>
 void DenseMatrix::InverseScaleCols(const T& values)
 {
+    assert(static_cast<int>(values.size()) == cols_);
+
     for (int j = 0; j < cols_; ++j)
     {
         const double scale = values[j];
-- 
2.43.0


From 7601ad3550f7894e42a6d3a87bcb7a3d64bec931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 37/63] fix: SparseMatrix checks the row starts it is
 constructed from

---
 include/sparsematrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..15c822e 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -474,6 +474,8 @@ SparseMatrix<T>::SparseMatrix(std::vector<int> indptr,
     assert(indptr_.size() == rows_ + 1u);
     assert(indices_.size() == data_.size());
     assert(indptr_[0] == 0);
+    assert(std::is_sorted(std::begin(indptr_), std::end(indptr_)));
+    assert(indptr_.back() == static_cast<int>(indices_.size()));
 
     if (indices_.size() > 0)
     {
-- 
2.43.0


From d71f5e93e2f765ba2ee28f93ed63bc0be9865279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 38/63] fix: SparseMatrix::GetSubMatrix checks its rows and
 columns

---
 include/sparsematrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 15c822e..38db973 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -862,6 +862,8 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
 
     for (int i = 0; i < out_cols; ++i)
     {
+        assert(cols[i] >= 0 && cols[i] < cols_);
+
         marker[cols[i]] = i;
     }
 
@@ -869,7 +871,7 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
     {
         const int row = rows[i];
 
-        assert(row < rows_);
+        assert(row >= 0 && row < rows_);
 
         for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
         {
-- 
2.43.0


From 3a1e3449d733497f72b0e265491c1d83aa44f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 39/63] fix: SparseMatrix AddDiag and EliminateCol check the
 sizes of their vectors

---
 include/sparsematrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 38db973..f3cb93a 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -806,6 +806,7 @@ template <typename T>
 void SparseMatrix<T>::AddDiag(const std::vector<T>& diag)
 {
     assert(rows_ == cols_);
+    assert(static_cast<int>(diag.size()) == rows_);
 
     for (int i = 0; i < rows_; ++i)
     {
@@ -1459,6 +1460,8 @@ template <typename U>
 void SparseMatrix<T>::EliminateCol(const U& marker, const VectorView<double>& x, VectorView<double> b)
 {
     assert(marker.size() >= cols_);
+    assert(x.size() == cols_);
+    assert(b.size() == rows_);
 
     for (int row = 0; row < rows_; ++row)
     {
-- 
2.43.0


From b18c8a94e2eaea1c1f795050e1cd91324a777a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 40/63] fix: CooMatrix permutations check their entries

---
 include/coomatrix.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index aacbd48..c117542 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -581,7 +581,10 @@ void CooMatrix<T>::PermuteRows(const std::vector<int>& perm)
 
     for (auto& entry : entries_)
     {
-        std::get<0>(entry) = perm[std::get<0>(entry)];
+        const int row = perm[std::get<0>(entry)];
+        assert(row >= 0 && row < rows);
+
+        std::get<0>(entry) = row;
     }
 }
 
@@ -596,7 +599,10 @@ void CooMatrix<T>::PermuteCols(const std::vector<int>& perm)
 
     for (auto& entry : entries_)
     {
-        std::get<1>(entry) = perm[std::get<1>(entry)];
+        const int col = perm[std::get<1>(entry)];
+        assert(col >= 0 && col < cols);
+
+        std::get<1>(entry) = col;
     }
 }
 
@@ -612,8 +618,13 @@ void CooMatrix<T>::PermuteRowsCols(const std::vector<int>& row_perm, const std::
 
     for (auto& entry : entries_)
     {
-        std::get<0>(entry) = row_perm[std::get<0>(entry)];
-        std::get<1>(entry) = col_perm[std::get<1>(entry)];
+        const int row = row_perm[std::get<0>(entry)];
+        const int col = col_perm[std::get<1>(entry)];
+        assert(row >= 0 && row < rows);
+        assert(col >= 0 && col < cols);
+
+        std::get<0>(entry) = row;
+        std::get<1>(entry) = col;
     }
 }
 
-- 
2.43.0


From 82a4fa06d7deac9b28b5a2e37311c96757b4b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 41/63] fix: CooMatrix::ToSparse checks its entries against the
 declared size

---
 include/coomatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index c117542..4c1a8e2 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -650,6 +650,9 @@ SparseMatrix<U> CooMatrix<T>::ToSparse() const
         int row = std::get<0>(entry);
         int col = std::get<1>(entry);
 
+        assert(row < rows);
+        assert(col < cols);
+
         auto search = index_map[row].find(col);
 
         if (search == index_map[row].end())
-- 
2.43.0


From 356cc5740e1d8d825df1c4632ee82f3337f78eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 42/63] fix: Solver::SetOperator of a solver without operator
 is an assertion

---
 src/solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 12c76bf..3c77e74 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -63,6 +63,7 @@ void Solver::SetAbsTol(double abs_tol)
 
 void Solver::SetOperator(const Operator& A)
 {
+    assert(A_);
     assert(A.Rows() == A_->Rows());
     assert(A.Cols() == A_->Cols());
 
-- 
2.43.0


From 58d73d65e0634a9302c3ab5f8dc4636c2779e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 43/63] fix: EigenSolver checks that the matrix is square

---
 src/eigensolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 659e848..7868e75 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -63,6 +63,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     auto& evects = eigen_pair.second;
 
     int n = mat.Rows();
+    assert(mat.Cols() == n);
 
     if (n < 1)
     {
-- 
2.43.0


From e937878f6813d77f8779f809588af124d9f626e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 44/63] fix: RemoveEmpty rejects negative labels in debug
 builds

---
 modules/partition/include/partition.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index e7fc5ac..85c270d 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -51,6 +51,7 @@ inline
 void RemoveEmpty(std::vector<int>& partition)
 {
     assert(partition.size() > 0);
+    assert(*std::min_element(std::begin(partition), std::end(partition)) >= 0);
 
     const int num_parts = *std::max_element(std::begin(partition), std::end(partition)) + 1;
 
-- 
2.43.0


From fb70f8b128001d96863950954507fbbaee5e3cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 45/63] fix: linalgcpp_assert throws in debug builds, as
 documented

---
 include/utilities.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/utilities.hpp b/include/utilities.hpp
index cde6cb1..b2be51d 100644
--- a/include/utilities.hpp
+++ b/include/utilities.hpp
@@ -3,6 +3,9 @@
 #ifndef UTILITIES_HPP__
 #define UTILITIES_HPP__
 
+#include <stdexcept>
+#include <string>
+
 namespace linalgcpp
 {
 
@@ -10,7 +13,7 @@ namespace linalgcpp
 inline
 void linalgcpp_assert(bool expression, const std::string& message = "linalgcpp assertion failed")
 {
-#ifdef NDEBUG
+#ifndef NDEBUG
     if (!expression)
     {
         throw std::runtime_error(message);
-- 
2.43.0


From 352e05843fe934afe1fc6ffbb492642d9b61835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 46/63] fix: text readers report unreadable, malformed and
 incomplete files

---
 include/parser.hpp | 87 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 9 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 83e770f..e4dca79 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -12,10 +12,34 @@
 #include "vector.hpp"
 #include "sparsematrix.hpp"
 #include "coomatrix.hpp"
+#include "utilities.hpp"
 
 namespace linalgcpp
 {
 
+/*! @brief Check for another entry in a text file
+    @param file file to read
+    @retval false only if all of the file has been read
+*/
+inline
+bool HasNext(std::istream& file)
+{
+    return !(file >> std::ws).eof();
+}
+
+/*! @brief Verify that everything asked of a file was read
+    @param file file that has been read
+    @param file_name name of the file
+*/
+inline
+void VerifyRead(const std::istream& file, const std::string& file_name)
+{
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+}
+
 /*! @brief Read a text file from disk.
     @param file_name file to read
     @retval vector of data read from disk
@@ -32,8 +56,12 @@ std::vector<T> ReadText(const std::string& file_name)
 
     std::vector<T> data;
 
-    for (T val; file >> val; )
+    while (HasNext(file))
     {
+        T val;
+        file >> val;
+        VerifyRead(file, file_name);
+
         data.push_back(val);
     }
 
@@ -255,8 +283,11 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
     int j;
     T val = 1;
 
-    while (file >> i >> j)
+    while (HasNext(file))
     {
+        file >> i >> j;
+        VerifyRead(file, file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -293,8 +324,11 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
     int i;
     int j;
 
-    while (file >> i >> j)
+    while (HasNext(file))
     {
+        file >> i >> j;
+        VerifyRead(file, file_name);
+
         if (i < j)
         {
             coo.Add(j, i, -1);
@@ -380,8 +414,11 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
     int j;
     T val;
 
-    while (file >> i >> j >> val)
+    while (HasNext(file))
     {
+        file >> i >> j >> val;
+        VerifyRead(file, file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -468,14 +505,23 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     {
         std::stringstream stream(line);
 
-        for (int index; stream >> index; )
+        while (HasNext(stream))
         {
+            int index;
+            stream >> index;
+            VerifyRead(stream, file_name);
+
             indices.push_back(index);
         }
 
         indptr.push_back(indices.size());
     }
 
+    if (!file.eof())
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     file.close();
 
     const int rows = indptr.size() - 1;
@@ -547,6 +593,7 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
     size_t cols;
 
     file >> rows >> cols;
+    VerifyRead(file, file_name);
 
     std::vector<int> indptr(rows + 1);
 
@@ -555,6 +602,8 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> indptr[i];
     }
 
+    VerifyRead(file, file_name);
+
     int nnz = indptr.back();
 
     std::vector<int> indices(nnz);
@@ -570,6 +619,8 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> data[i];
     }
 
+    VerifyRead(file, file_name);
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data),
@@ -668,7 +719,9 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     int nnz;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream size(line);
+    size >> rows >> cols >> nnz;
+    VerifyRead(size, file_name);
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
@@ -678,8 +731,13 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     int j;
     T val;
 
-    while (file >> i >> j >> val)
+    int count = 0;
+
+    for (; HasNext(file); ++count)
     {
+        file >> i >> j >> val;
+        VerifyRead(file, file_name);
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
@@ -690,6 +748,8 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
     file.close();
 
+    linalgcpp_verify(count == nnz, "Wrong number of entries in file: " + file_name);
+
     return coo.ToSparse();
 }
 
@@ -733,7 +793,9 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     int nnz;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream size(line);
+    size >> rows >> cols >> nnz;
+    VerifyRead(size, file_name);
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
@@ -743,8 +805,13 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     int j;
     T val = 1.0;
 
-    while (file >> i >> j)
+    int count = 0;
+
+    for (; HasNext(file); ++count)
     {
+        file >> i >> j;
+        VerifyRead(file, file_name);
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
@@ -755,6 +822,8 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
     file.close();
 
+    linalgcpp_verify(count == nnz, "Wrong number of entries in file: " + file_name);
+
     return coo.ToSparse();
 }
 
-- 
2.43.0


From 1b9a4f54c164c21ff5adb02c5d85ada59da7c5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 47/63] fix: LilMatrix::ToSparse leaves the matrix as it is

---
 include/lilmatrix.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index d97cb00..d7f71a4 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -367,12 +367,14 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
 
     const int size = entries_.size();
 
-    for (auto& row : entries_)
+    auto entries = entries_;
+
+    for (auto& row : entries)
     {
         row.sort();
     }
 
-    const int nnz = entries_.size();
+    const int nnz = entries.size();
 
     std::vector<int> indptr(rows + 1, 0);
     std::vector<int> indices;
@@ -387,7 +389,7 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
     {
         const int current_row = indptr[i];
 
-        for (const auto& node : entries_[i])
+        for (const auto& node : entries[i])
         {
             const int& j = node.first;
             const T& val = node.second;
-- 
2.43.0


From efd7f75c5f974c0503ef7426859a64257588f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 48/63] fix: ShowOptions leaves the format of the stream as it
 was

---
 src/argparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/argparser.cpp b/src/argparser.cpp
index 62df897..40c2628 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -111,6 +111,8 @@ void ArgParser::ShowOptions(std::ostream& out) const
     flag_width += 2;
     val_width += 2;
 
+    const auto out_flags = out.flags();
+
     for (auto& option : seen_values_)
     {
         out << "  " << std::left
@@ -120,6 +122,7 @@ void ArgParser::ShowOptions(std::ostream& out) const
             << "\n";
     }
 
+    out.flags(out_flags);
     out.flush();
 }
 
-- 
2.43.0


From 6373d3d5c1217428a06aea4504f68646cb0addd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 49/63] fix: copies that run out of memory throw instead of
 terminating

---
 include/blockmatrix.hpp                      |  4 ++--
 include/blockoperator.hpp                    |  2 +-
 include/blockvector.hpp                      |  4 ++--
 include/coomatrix.hpp                        |  4 ++--
 include/densematrix.hpp                      |  2 +-
 include/lilmatrix.hpp                        |  4 ++--
 include/solvers.hpp                          |  6 +++---
 include/sparsematrix.hpp                     |  4 ++--
 include/vector.hpp                           | 12 ++++++------
 modules/sparsesolver/include/sparsesolve.hpp |  2 +-
 modules/sparsesolver/src/sparsesolve.cpp     |  2 +-
 src/blockoperator.cpp                        |  2 +-
 src/densematrix.cpp                          |  2 +-
 src/solvers.cpp                              |  6 +++---
 14 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 4c2fc3b..59e914d 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -40,7 +40,7 @@ class BlockMatrix : public Operator
         BlockMatrix(std::vector<int> row_offsets, std::vector<int> col_offsets);
 
         /*! @brief Copy deconstructor */
-        BlockMatrix(const BlockMatrix<T>& other) noexcept;
+        BlockMatrix(const BlockMatrix<T>& other);
 
         /*! @brief Move deconstructor */
         BlockMatrix(BlockMatrix<T>&& other) noexcept;
@@ -138,7 +138,7 @@ BlockMatrix<T>::BlockMatrix(std::vector<int> row_offsets, std::vector<int> col_o
 }
 
 template <typename T>
-BlockMatrix<T>::BlockMatrix(const BlockMatrix<T>& other) noexcept
+BlockMatrix<T>::BlockMatrix(const BlockMatrix<T>& other)
     : Operator(other), row_offsets_(other.row_offsets_), col_offsets_(other.col_offsets_),
       A_(other.A_)
 {
diff --git a/include/blockoperator.hpp b/include/blockoperator.hpp
index c5fbf1a..4c4c151 100644
--- a/include/blockoperator.hpp
+++ b/include/blockoperator.hpp
@@ -38,7 +38,7 @@ class BlockOperator : public Operator
         BlockOperator(std::vector<int> row_offsets, std::vector<int> col_offsets);
 
         /*! @brief Copy deconstructor */
-        BlockOperator(const BlockOperator& other) noexcept;
+        BlockOperator(const BlockOperator& other);
 
         /*! @brief Move deconstructor */
         BlockOperator(BlockOperator&& other) noexcept;
diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index fec64ab..5e9ad10 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -36,7 +36,7 @@ class BlockVector : public Vector<T>
         explicit BlockVector(const VectorView<T>& data, std::vector<int> offsets);
 
         /*! @brief Copy deconstructor */
-        BlockVector(const BlockVector<T>& other) noexcept;
+        BlockVector(const BlockVector<T>& other);
 
         /*! @brief Move deconstructor */
         BlockVector(BlockVector<T>&& other) noexcept;
@@ -93,7 +93,7 @@ BlockVector<T>::BlockVector(const VectorView<T>& data, std::vector<int> offsets)
 }
 
 template <typename T>
-BlockVector<T>::BlockVector(const BlockVector<T>& other) noexcept
+BlockVector<T>::BlockVector(const BlockVector<T>& other)
     : Vector<T>(other), offsets_(other.offsets_)
 {
 
diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 4c1a8e2..9410505 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -48,7 +48,7 @@ class CooMatrix : public Operator
         CooMatrix(int rows, int cols);
 
         /*! @brief Copy Constructor */
-        CooMatrix(const CooMatrix& other) noexcept;
+        CooMatrix(const CooMatrix& other);
 
         /*! @brief Move Constructor */
         CooMatrix(CooMatrix&& other) noexcept;
@@ -291,7 +291,7 @@ CooMatrix<T>::CooMatrix(int rows, int cols)
 }
 
 template <typename T>
-CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
+CooMatrix<T>::CooMatrix(const CooMatrix& other)
     : Operator(other), size_set_(other.size_set_), entries_(other.entries_)
 {
 
diff --git a/include/densematrix.hpp b/include/densematrix.hpp
index 3ee3e26..7ce22f7 100644
--- a/include/densematrix.hpp
+++ b/include/densematrix.hpp
@@ -52,7 +52,7 @@ class DenseMatrix : public Operator
         DenseMatrix(int rows, int cols, std::vector<double> data);
 
         /*! @brief Copy Constructor */
-        DenseMatrix(const DenseMatrix& other) noexcept;
+        DenseMatrix(const DenseMatrix& other);
 
         /*! @brief Move constructor */
         DenseMatrix(DenseMatrix&& other) noexcept;
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index d7f71a4..1357cfc 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -47,7 +47,7 @@ class LilMatrix : public Operator
         LilMatrix(int rows, int cols);
 
         /*! @brief Copy Constructor */
-        LilMatrix(const LilMatrix& other) noexcept;
+        LilMatrix(const LilMatrix& other);
 
         /*! @brief Move Constructor */
         LilMatrix(LilMatrix&& other) noexcept;
@@ -198,7 +198,7 @@ LilMatrix<T>::LilMatrix(int rows, int cols)
 }
 
 template <typename T>
-LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
+LilMatrix<T>::LilMatrix(const LilMatrix& other)
     : Operator(other),
       size_set_(other.size_set_), entries_(other.entries_)
 {
diff --git a/include/solvers.hpp b/include/solvers.hpp
index 63ee2d1..dc30b9b 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -121,7 +121,7 @@ class PCGSolver : public Solver
                  double (*Dot)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct);
 
         /*! @brief Copy Constructor */
-        PCGSolver(const PCGSolver& other) noexcept;
+        PCGSolver(const PCGSolver& other);
 
         /*! @brief Move Constructor */
         PCGSolver(PCGSolver&& other) noexcept;
@@ -172,7 +172,7 @@ class MINRESSolver : public Solver
                      double (*Dot)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct);
 
         /*! @brief Copy Constructor */
-        MINRESSolver(const MINRESSolver& other) noexcept;
+        MINRESSolver(const MINRESSolver& other);
 
         /*! @brief Move Constructor */
         MINRESSolver(MINRESSolver&& other) noexcept;
@@ -220,7 +220,7 @@ class PMINRESSolver : public Solver
                  double (*Dot)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct);
 
         /*! @brief Copy Constructor */
-        PMINRESSolver(const PMINRESSolver& other) noexcept;
+        PMINRESSolver(const PMINRESSolver& other);
 
         /*! @brief Move Constructor */
         PMINRESSolver(PMINRESSolver&& other) noexcept;
diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index f3cb93a..9bc1aec 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -61,7 +61,7 @@ class SparseMatrix : public Operator
         explicit SparseMatrix(std::vector<T> diag);
 
         /*! @brief Copy Constructor */
-        SparseMatrix(const SparseMatrix<T>& other) noexcept;
+        SparseMatrix(const SparseMatrix<T>& other);
 
         /*! @brief Move constructor */
         SparseMatrix(SparseMatrix<T>&& other) noexcept;
@@ -494,7 +494,7 @@ SparseMatrix<T>::SparseMatrix(std::vector<T> diag)
 }
 
 template <typename T>
-SparseMatrix<T>::SparseMatrix(const SparseMatrix<T>& other) noexcept
+SparseMatrix<T>::SparseMatrix(const SparseMatrix<T>& other)
     : Operator(other),
       indptr_(other.indptr_), indices_(other.indices_), data_(other.data_)
 {
diff --git a/include/vector.hpp b/include/vector.hpp
index e57d787..6fe692d 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -52,7 +52,7 @@ class Vector : public VectorView<T>
         explicit Vector(std::vector<T> vect);
 
         /*! @brief Copy Constructor */
-        Vector(const Vector& vect) noexcept;
+        Vector(const Vector& vect);
 
         /*! @brief Move constructor
             @param vect the vector to move
@@ -83,12 +83,12 @@ class Vector : public VectorView<T>
             @param vect the vector to copy
         */
 
-        Vector& operator=(const Vector<T>& vect) noexcept;
+        Vector& operator=(const Vector<T>& vect);
 
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
         */
-        Vector& operator=(const VectorView<T>& vect) noexcept;
+        Vector& operator=(const VectorView<T>& vect);
 
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
@@ -159,7 +159,7 @@ Vector<T>::Vector(std::vector<T> vect)
 }
 
 template <typename T>
-Vector<T>::Vector(const Vector<T>& vect) noexcept
+Vector<T>::Vector(const Vector<T>& vect)
     : data_(vect.data_)
 {
     VectorView<T>::SetData(data_.data(), data_.size());
@@ -200,7 +200,7 @@ void Vector<T>::SetSize(int size, T val)
 }
 
 template <typename T>
-Vector<T>& Vector<T>::operator=(const Vector<T>& vect) noexcept
+Vector<T>& Vector<T>::operator=(const Vector<T>& vect)
 {
     data_.resize(vect.size());
     std::copy(std::begin(vect.data_), std::end(vect.data_), std::begin(data_));
@@ -211,7 +211,7 @@ Vector<T>& Vector<T>::operator=(const Vector<T>& vect) noexcept
 }
 
 template <typename T>
-Vector<T>& Vector<T>::operator=(const VectorView<T>& vect) noexcept
+Vector<T>& Vector<T>::operator=(const VectorView<T>& vect)
 {
     data_.resize(vect.size());
     std::copy(std::begin(vect), std::end(vect), std::begin(data_));
diff --git a/modules/sparsesolver/include/sparsesolve.hpp b/modules/sparsesolver/include/sparsesolve.hpp
index 6ee7c64..ec4f0a8 100644
--- a/modules/sparsesolver/include/sparsesolve.hpp
+++ b/modules/sparsesolver/include/sparsesolve.hpp
@@ -13,7 +13,7 @@ class SparseSolver : public linalgcpp::Operator
         explicit SparseSolver(linalgcpp::SparseMatrix<double> A);
 
         /// @warning Avoid copy since this will have to refactor A
-        SparseSolver(const SparseSolver& other) noexcept;
+        SparseSolver(const SparseSolver& other);
 
         SparseSolver(SparseSolver&& other) noexcept;
         SparseSolver& operator=(SparseSolver other) noexcept;
diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index fa11eda..94140ae 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -17,7 +17,7 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
     }
 }
 
-SparseSolver::SparseSolver(const SparseSolver& other) noexcept
+SparseSolver::SparseSolver(const SparseSolver& other)
     : Operator(other), A_(other.A_), numeric_(nullptr), control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index 0aa0428..d0558ac 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -29,7 +29,7 @@ BlockOperator::BlockOperator(std::vector<int> row_offsets, std::vector<int> col_
 
 }
 
-BlockOperator::BlockOperator(const BlockOperator& other) noexcept
+BlockOperator::BlockOperator(const BlockOperator& other)
     : Operator(other), 
       row_offsets_(other.row_offsets_), col_offsets_(other.col_offsets_),
       A_(other.A_), x_(other.x_), y_(other.y_)
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index eec0419..82a1e49 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -52,7 +52,7 @@ DenseMatrix::DenseMatrix(int rows, int cols, std::vector<double> data)
     assert(static_cast<int>(data_.size()) == rows * cols);
 }
 
-DenseMatrix::DenseMatrix(const DenseMatrix& other) noexcept
+DenseMatrix::DenseMatrix(const DenseMatrix& other)
     : Operator(other), data_(other.data_)
 {
 }
diff --git a/src/solvers.cpp b/src/solvers.cpp
index 3c77e74..ab32076 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -114,7 +114,7 @@ PCGSolver::PCGSolver(const Operator& A, const Operator& M, int max_iter,
     assert(M_->Rows() == M_->Cols());
 }
 
-PCGSolver::PCGSolver(const PCGSolver& other) noexcept
+PCGSolver::PCGSolver(const PCGSolver& other)
     : Solver(other), M_(other.M_), Ap_(other.Ap_), r_(other.r_), p_(other.p_),
       z_(other.z_)
 {
@@ -255,7 +255,7 @@ MINRESSolver::MINRESSolver(const Operator& A, int max_iter, double rel_tol, doub
     assert(A_->Rows() == A_->Cols());
 }
 
-MINRESSolver::MINRESSolver(const MINRESSolver& other) noexcept
+MINRESSolver::MINRESSolver(const MINRESSolver& other)
     : Solver(other), w0_(other.w0_), w1_(other.w1_), v0_(other.v0_),
       v1_(other.v1_), q_(other.q_)
 {
@@ -408,7 +408,7 @@ PMINRESSolver::PMINRESSolver(const Operator& A, const Operator& M, int max_iter,
     assert(M_->Rows() == M_->Cols());
 }
 
-PMINRESSolver::PMINRESSolver(const PMINRESSolver& other) noexcept
+PMINRESSolver::PMINRESSolver(const PMINRESSolver& other)
     : Solver(other), M_(other.M_), w0_(other.w0_), w1_(other.w1_),
       v0_(other.v0_), v1_(other.v1_), u1_(other.u1_), q_(other.q_)
 {
-- 
2.43.0


From 1967e189fec7f5d950e446b34692b6d28af8ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 50/63] fix: SetSize keeps the matrix consistent when memory
 runs out

---
 include/lilmatrix.hpp | 4 ++--
 src/densematrix.cpp   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 1357cfc..5e4c8ca 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -250,12 +250,12 @@ int LilMatrix<T>::Cols() const
 template <typename T>
 void LilMatrix<T>::SetSize(int rows, int cols)
 {
+    entries_.resize(rows);
+
     size_set_ = true;
 
     rows_ = rows;
     cols_ = cols;
-
-    entries_.resize(rows_);
 }
 
 template <typename T>
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 82a1e49..cdad2af 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -92,9 +92,10 @@ void DenseMatrix::SetSize(int rows, int cols)
     assert(rows >= 0);
     assert(cols >= 0);
 
+    data_.resize(rows * cols);
+
     rows_ = rows;
     cols_ = cols;
-    data_.resize(rows * cols);
 }
 
 void DenseMatrix::SetSize(int size, double val)
@@ -107,9 +108,10 @@ void DenseMatrix::SetSize(int rows, int cols, double val)
     assert(rows >= 0);
     assert(cols >= 0);
 
+    data_.resize(rows * cols, val);
+
     rows_ = rows;
     cols_ = cols;
-    data_.resize(rows * cols, val);
 }
 
 
-- 
2.43.0


From d5b867a49bc702ca698d4c2d7be2bc1cc750abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 51/63] fix: moving block operators and direct solvers does not
 allocate

---
 modules/sparsesolver/src/sparsesolve.cpp | 8 ++++++--
 src/blockoperator.cpp                    | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index 94140ae..de52421 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -27,9 +27,13 @@ SparseSolver::SparseSolver(const SparseSolver& other)
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
-    : numeric_(nullptr)
+    : A_(std::move(other.A_)), numeric_(nullptr)
 {
-    swap(*this, other);
+    swap(static_cast<linalgcpp::Operator&>(*this), static_cast<linalgcpp::Operator&>(other));
+
+    std::swap(numeric_, other.numeric_);
+    std::swap(control_, other.control_);
+    std::swap(info_, other.info_);
 }
 
 SparseSolver& SparseSolver::operator=(SparseSolver other) noexcept
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index d0558ac..5f70107 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -38,8 +38,13 @@ BlockOperator::BlockOperator(const BlockOperator& other)
 }
 
 BlockOperator::BlockOperator(BlockOperator&& other) noexcept
+    : x_(std::move(other.x_)), y_(std::move(other.y_))
 {
-    swap(*this, other);
+    swap(static_cast<Operator&>(*this), static_cast<Operator&>(other));
+
+    swap(row_offsets_, other.row_offsets_);
+    swap(col_offsets_, other.col_offsets_);
+    swap(A_, other.A_);
 }
 
 void swap(BlockOperator& lhs, BlockOperator& rhs) noexcept
-- 
2.43.0


From d27a958b8ad5457f75c332d0fadfe724b31ff1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 52/63] fix: EigenSolver stays usable when its work space could
 not be allocated

---
 src/eigensolver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 7868e75..5d856eb 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -141,8 +141,10 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
 
 void EigenSolver::AllocateWorkspace(int size)
 {
+    // nothing is usable until every array has its size
+    alloc_size_ = 0;
+
     A_.resize(size * size, 0.0);
-    alloc_size_ = size;
 
     int lwork = -1;
     double wkopt;
@@ -171,6 +173,8 @@ void EigenSolver::AllocateWorkspace(int size)
 
     w_.resize(size);
     isuppz_.resize(2 * size);
+
+    alloc_size_ = size;
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From b9095cc1272af9331377bfef72dbf726009183af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 53/63] fix: printed dense matrices separate wide entries

---
 src/densematrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index cdad2af..ed3e4c5 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -124,7 +124,8 @@ void DenseMatrix::Print(const std::string& label, std::ostream& out, int width,
     {
         for (int j = 0; j < cols_; ++j)
         {
-            ss << std::setw(width) << std::setprecision(precision)
+            // at least one blank, also before entries wider than the column
+            ss << " " << std::setw(width - 1) << std::setprecision(precision)
                 << std::fixed << (*this)(i, j);
             //<< std::defaultfloat << (*this)(i, j);
         }
-- 
2.43.0


From ab9c9fae54278f869487214b407741fb20a4c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 54/63] fix: text files do not depend on the global locale

---
 include/parser.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index e4dca79..75e7b28 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -8,6 +8,7 @@
 #include <assert.h>
 #include <cctype>
 #include <fstream>
+#include <locale>
 
 #include "vector.hpp"
 #include "sparsematrix.hpp"
@@ -48,6 +49,7 @@ template <typename T = double>
 std::vector<T> ReadText(const std::string& file_name)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -78,6 +80,7 @@ template <typename T>
 void WriteText(const T& vect, const std::string& file_name)
 {
     std::ofstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -271,6 +274,7 @@ template <typename T = double>
 SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -313,6 +317,7 @@ template <typename T = double>
 SparseMatrix<T> ReadGraphList(const std::string& file_name)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -355,6 +360,7 @@ template <typename T = double>
 void WriteAdjList(const SparseMatrix<T>& mat, const std::string& file_name, bool symmetric = false)
 {
     std::ofstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -402,6 +408,7 @@ template <typename T = double>
 SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -444,6 +451,7 @@ template <typename T = double>
 void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool symmetric = false)
 {
     std::ofstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -492,6 +500,7 @@ template <typename T = int>
 SparseMatrix<T> ReadTable(const std::string& file_name)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -504,6 +513,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     for (std::string line; std::getline(file, line); )
     {
         std::stringstream stream(line);
+        stream.imbue(std::locale::classic());
 
         while (HasNext(stream))
         {
@@ -543,6 +553,7 @@ template <typename T = int>
 void WriteTable(const SparseMatrix<T>& mat, const std::string& file_name)
 {
     std::ofstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -583,6 +594,7 @@ template <typename T = double>
 SparseMatrix<T> ReadCSR(const std::string& file_name)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -637,6 +649,7 @@ template <typename T = double>
 void WriteCSR(const SparseMatrix<T>& mat, const std::string& file_name)
 {
     std::ofstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -691,6 +704,7 @@ template <typename T = double>
 SparseMatrix<T> ReadMTX(const std::string& file_name)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -720,6 +734,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
     // First line after comments contains size info
     std::istringstream size(line);
+    size.imbue(std::locale::classic());
     size >> rows >> cols >> nnz;
     VerifyRead(size, file_name);
 
@@ -767,6 +782,7 @@ template <typename T = double>
 SparseMatrix<T> ReadMTXList(const std::string& file_name)
 {
     std::ifstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
@@ -794,6 +810,7 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
     // First line after comments contains size info
     std::istringstream size(line);
+    size.imbue(std::locale::classic());
     size >> rows >> cols >> nnz;
     VerifyRead(size, file_name);
 
@@ -842,6 +859,7 @@ template <typename T = double>
 void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
 {
     std::ofstream file(file_name.c_str());
+    file.imbue(std::locale::classic());
 
     if (!file.is_open())
     {
-- 
2.43.0


From a0116892afb82b53bc15f8f049179c3ff48d7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 55/63] fix: command line values do not depend on the global
 locale

---
 include/argparser.hpp | 4 ++++
 src/argparser.cpp     | 1 +
 2 files changed, 5 insertions(+)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 14e249f..40f77d8 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 #include <assert.h>
@@ -81,6 +82,8 @@ void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help)
     if (values_.find(flag) != values_.end())
     {
         std::stringstream ss(values_[flag]);
+        ss.imbue(std::locale::classic());
+
         T value(arg);
 
         if (ss >> value && (ss >> std::ws).eof())
@@ -96,6 +99,7 @@ void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help)
     if (seen_values_.find(flag) == seen_values_.end())
     {
         std::stringstream ss;
+        ss.imbue(std::locale::classic());
         ss << arg;
 
         seen_values_[flag] = ss.str();
diff --git a/src/argparser.cpp b/src/argparser.cpp
index 40c2628..68227e6 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -139,6 +139,7 @@ void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& hel
     if (seen_values_.find(flag) == seen_values_.end())
     {
         std::stringstream ss;
+        ss.imbue(std::locale::classic());
         ss << std::boolalpha << arg;
 
         seen_values_[flag] = ss.str();
-- 
2.43.0


From 842217c9df520012ef9dab0f7df088647b6b81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 56/63] fix: dense and block matrices print in the locale of
 the stream

---
 include/blockmatrix.hpp | 1 +
 src/densematrix.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 59e914d..d321bcf 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -312,6 +312,7 @@ void BlockMatrix<T>::Print(const std::string& label, std::ostream& out) const
             const auto& mat = A_[i][j];
 
             std::stringstream block_label;
+            block_label.imbue(out.getloc());
             block_label << "block (" << i << "," << j << ")";
 
             mat.Print(block_label.str(), out);
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index ed3e4c5..02914da 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -118,6 +118,7 @@ void DenseMatrix::SetSize(int rows, int cols, double val)
 void DenseMatrix::Print(const std::string& label, std::ostream& out, int width, int precision) const
 {
     std::stringstream ss;
+    ss.imbue(out.getloc());
     ss << label << "\n";
 
     for (int i = 0; i < rows_; ++i)
-- 
2.43.0


From 87df8e7fed19e2db6dd4dc17e31a6e22d525077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 57/63] fix: scale the first entry of every off-diagonal column
 in ParAdd

---
 modules/parlinalgcpp/src/parutilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index cdebca8..4c8a54a 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -276,7 +276,7 @@ ParMatrix ParAdd(double alpha, const ParMatrix& A, double beta, const ParMatrix&
                 }
                 else
                 {
-                    coo_offd.Add(i, col_map.size(), data[j]);
+                    coo_offd.Add(i, col_map.size(), val * data[j]);
                     marker[global_col] = col_map.size();
 
                     col_map.emplace_back(global_col);
-- 
2.43.0


From 3d34a7f42c9ccfefda7a9d573fe0e6375c8ee732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 58/63] fix: ParMatrix::MaxNorm returns the largest entry, not
 the largest sum of a block

---
 modules/parlinalgcpp/src/parmatrix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index 9ec0582..82d2d87 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -353,9 +353,19 @@ ParCommPkg ParMatrix::MakeCommPkg() const
 
 double ParMatrix::MaxNorm() const
 {
-    double local_max = std::max(diag_.MaxNorm(), offd_.MaxNorm());
+    double local_max = 0.0;
     double global_max = 0.0;
 
+    for (const auto& val : diag_.GetData())
+    {
+        local_max = std::max(local_max, std::fabs(val));
+    }
+
+    for (const auto& val : offd_.GetData())
+    {
+        local_max = std::max(local_max, std::fabs(val));
+    }
+
     MPI_Allreduce(&local_max, &global_max, 1, MPI_DOUBLE, MPI_MAX,
                   comm_);
 
-- 
2.43.0


From 27cafd82c665a19fbd9e6be241c51329a2d407f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 59/63] fix: ParSplit keeps the diagonal block of a
 nonsymmetric matrix

---
 modules/parlinalgcpp/src/parutilities.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 4c8a54a..4b74f07 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -77,10 +77,7 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
                 int local_col = local_index[perm[col]];
                 assert(local_col >= 0 && local_col < local_vertices);
 
-                if (local_col >= local_vertex)
-                {
-                    local_diag.AddSym(local_vertex, local_col, val);
-                }
+                local_diag.Add(local_vertex, local_col, val);
             }
             else
             {
-- 
2.43.0


From 80ce3730db14df1b39452b7fe5461b93ecbf69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 60/63] fix: empty ParVector has a size and can be copied

---
 modules/parlinalgcpp/src/parvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 3466913..423de67 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -6,7 +6,7 @@ namespace linalgcpp
 {
 
 ParVector::ParVector()
-    : Vector(0), comm_(0), pvect_(nullptr)
+    : Vector(0), comm_(0), pvect_(nullptr), global_size_(0)
 {
 }
 
@@ -55,7 +55,10 @@ ParVector::ParVector(const ParVector& other)
     : linalgcpp::Vector<double>(other), comm_(other.comm_), pvect_(nullptr), partition_(other.partition_),
       global_size_(other.global_size_)
 {
-    HypreCreate();
+    if (other.pvect_)
+    {
+        HypreCreate();
+    }
 }
 
 ParVector::ParVector(ParVector&& other)
-- 
2.43.0


From a392e4c887280266f37fea27af1c9d8191241e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 61/63] fix: ParCG passes the solve and setup functions of the
 preconditioner in hypre's order

---
 modules/parlinalgcpp/src/parsolvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 7c6a2da..ec0021c 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -256,7 +256,7 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSetupFn(), M.GetSolveFn(), M.GetSolver());
+                              M.GetSolveFn(), M.GetSetupFn(), M.GetSolver());
 }
 
 
-- 
2.43.0


From 2a6c39e44cf261b1d688f5340e1712c7f7d0c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 62/63] fix: moving distributed solvers and smoothers no longer
 swaps uninitialised members

---
 modules/parlinalgcpp/src/parsmoother.cpp | 1 +
 modules/parlinalgcpp/src/parsolvers.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 3919721..d06cd48 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -30,6 +30,7 @@ ParSmoother::ParSmoother(const ParSmoother& other)
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
+    : ParSmoother()
 {
     swap(*this, other);
 }
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index ec0021c..4449abc 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -51,6 +51,7 @@ ParSolver::ParSolver(const ParSolver& other)
 }
 
 ParSolver::ParSolver(ParSolver&& other)
+    : ParSolver()
 {
     swap(*this, other);
 }
-- 
2.43.0


From fbbec6475423549954704d9988479c60c3a5bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 63/63] fix: copies of ParCG keep tolerance, iteration limit
 and print level

---
 modules/parlinalgcpp/src/parsolvers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 4449abc..fbce374 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -264,6 +264,12 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
 ParCG::ParCG(const ParCG& other) noexcept
     : ParSolver(other)
 {
+    auto& solver_ = ParSolver::GetSolver();
+
+    HYPRE_PCGSetTol(solver_, tol_);
+    HYPRE_PCGSetMaxIter(solver_, max_iter_);
+    HYPRE_ParCSRPCGSetPrintLevel(solver_, verbose_);
+
     HypreSetup();
 }
 
-- 
2.43.0

