From b5d48d93db19d2a0ecc4279e3bf600efaa3e4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 01/36] fix: evaluate multiply operands in order in mxm with
 both inputs transposed

The A'*B' kernels compute (B*A)' and passed the operands of the semiring's
multiply in reversed order, so every non-commutative multiply (minus, first,
second, div, ...) gave wrong values.  The optimized kernels also converted B's
values to A's scalar type, and the sequential one rounded the intermediate
result to C's type before accumulation.
---
 .../optimized_sequential/sparse_helpers.hpp   | 24 ++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 25 +++++++++++--------
 .../platforms/sequential/sparse_helpers.hpp   | 24 ++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  4 +--
 4 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..5b2ae36 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1365,6 +1365,30 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult(b, a) evaluates semiring.mult(a, b).
+        /// For kernels that compute (A +.* B)' as B' +.* A' and would otherwise
+        /// present the operands of the multiply operator in reversed order.
+        template<typename SemiringT>
+        struct SwapMultOperands
+        {
+            using result_type = typename SemiringT::result_type;
+
+            SemiringT semiring;
+
+            template <typename D1, typename D2>
+            auto add(D1 const &a, D2 const &b) const
+            {
+                return semiring.add(a, b);
+            }
+
+            template <typename D1, typename D2>
+            auto mult(D1 const &a, D2 const &b) const
+            {
+                return semiring.mult(b, a);
+            }
+        };
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..9b18889 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,12 +72,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, SwapMultOperands<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -232,12 +233,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, SwapMultOperands<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -331,12 +333,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, SwapMultOperands<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -428,12 +431,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, SwapMultOperands<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -526,12 +530,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, SwapMultOperands<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..5b2ae36 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1365,6 +1365,30 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult(b, a) evaluates semiring.mult(a, b).
+        /// For kernels that compute (A +.* B)' as B' +.* A' and would otherwise
+        /// present the operands of the multiply operator in reversed order.
+        template<typename SemiringT>
+        struct SwapMultOperands
+        {
+            using result_type = typename SemiringT::result_type;
+
+            SemiringT semiring;
+
+            template <typename D1, typename D2>
+            auto add(D1 const &a, D2 const &b) const
+            {
+                return semiring.add(a, b);
+            }
+
+            template <typename D1, typename D2>
+            auto mult(D1 const &a, D2 const &b) const
+            {
+                return semiring.mult(b, a);
+            }
+        };
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..867a013 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -282,7 +282,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    axpy(T_row, SwapMultOperands<SemiringT>{op}, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
-- 
2.43.0


From a4deb27b9dd313dd8f0859da40a1f7a22acfc6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 02/36] fix: clear output rows whose A row is empty in
 optimized mxm(A, B')

Without mask and accumulator the previous contents of such rows of C were kept.
---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..56a1c01 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,7 +70,11 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
+                if (A[i].empty())
+                {
+                    C.setRow(i, C_row);
+                    continue;
+                }
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
-- 
2.43.0


From d2b9beb9c63a46a4ac2ab38acddd1ca66c5e7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 03/36] fix: keep the product's type in optimized mxm
 accumulation when C aliases B

The temporary product was rounded to C's scalar type before accumulation, unlike
in the non-aliased path.
---
 src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp | 3 ++-
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
index 5a2956a..9edeb11 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
@@ -444,7 +444,8 @@ namespace grb
             if ((void*)&C == (void*)&B)
             {
                 // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                LilSparseMatrix<typename SemiringT::result_type>
+                    Ctmp(C.nrows(), C.ncols());
                 AB_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 56a1c01..ea1ddf6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -489,7 +489,8 @@ namespace grb
             if ((void*)&C == (void*)&B)
             {
                 // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                LilSparseMatrix<typename SemiringT::result_type>
+                    Ctmp(C.nrows(), C.ncols());
                 ABT_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
-- 
2.43.0


From 5a6ce7b26e5e1a97d5779fe3b493688be83c9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 04/36] fix: return a living string from the what() of every
 GraphBLAS exception

what() returned c_str() of a temporary, so any message read through
std::exception was a dangling pointer.
---
 src/graphblas/exceptions.hpp | 70 ++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/graphblas/exceptions.hpp b/src/graphblas/exceptions.hpp
index fa75ef9..eadea33 100644
--- a/src/graphblas/exceptions.hpp
+++ b/src/graphblas/exceptions.hpp
@@ -47,16 +47,16 @@ namespace grb
     {
     public:
         IndexOutOfBoundsException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("IndexOutOfBoundsException: " + msg) {}
 
-        IndexOutOfBoundsException() {}
+        IndexOutOfBoundsException() : m_message("IndexOutOfBoundsException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("IndexOutOfBoundsException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -65,16 +65,16 @@ namespace grb
     {
     public:
         PanicException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("PanicException: " + msg) {}
 
-        PanicException() {}
+        PanicException() : m_message("PanicException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("PanicException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -87,16 +87,16 @@ namespace grb
     {
     public:
         InvalidValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidValueException: " + msg) {}
 
-        InvalidValueException() {}
+        InvalidValueException() : m_message("InvalidValueException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("InvalidValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -105,16 +105,16 @@ namespace grb
     {
     public:
         InvalidIndexException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidIndexException: " + msg) {}
 
-        InvalidIndexException() {}
+        InvalidIndexException() : m_message("InvalidIndexException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("InvalidIndexException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -123,19 +123,19 @@ namespace grb
     {
     public:
         DimensionException(std::string const &msg)
-            : m_message(msg)
+            : m_message("DimensionException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! DimensionException: " << msg);
         }
 
-        DimensionException(){}
+        DimensionException() : m_message("DimensionException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("DimensionException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -144,19 +144,19 @@ namespace grb
     {
     public:
         OutputNotEmptyException(std::string const &msg)
-            : m_message(msg)
+            : m_message("OutputNotEmptyException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! OutputNotEmptyException: " << msg);
         }
 
-        OutputNotEmptyException(){}
+        OutputNotEmptyException() : m_message("OutputNotEmptyException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("OutputNotEmptyException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 
@@ -165,16 +165,16 @@ namespace grb
     {
     public:
         NoValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("NoValueException: " + msg) {}
 
-        NoValueException() {}
+        NoValueException() : m_message("NoValueException: ") {}
 
-    private:
-        const char* what() const throw()
+        const char* what() const noexcept override
         {
-            return ("NoValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
+    private:
         std::string m_message;
     };
 }
-- 
2.43.0


From 975aebb2e83e26c11206e879deedb6945a38f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 05/36] fix: count the values stored by the Vector(count,
 value) constructor

nvals() was 0 for a full vector, so extractTuples users, equality and every
operation with an "is empty" shortcut went wrong; a size of zero was accepted.
---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp   | 6 +++++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
-- 
2.43.0


From e207f08f89a71c564d11848c857f5d97afbc0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 06/36] fix: count duplicates once in Vector::build

nvals() counted every tuple handed in, also those merged by dup.
---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp     | 4 +++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7f44395..4b25969 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7f44395..4b25969 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From 416f6e184aa26ce01633b83db1b350c8efcbbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 07/36] fix: keep LilSparseMatrix consistent when setRow or
 assignment fails

Both updated the stored-value count before copying, so a failing allocation or
element copy left nvals() disagreeing with the stored tuples.
---
 .../optimized_sequential/LilSparseMatrix.hpp       | 14 +++++++++-----
 .../platforms/sequential/LilSparseMatrix.hpp       | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 2efb6a0..49a697d 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -133,8 +133,9 @@ namespace grb
                         throw DimensionException();
                     }
 
+                    std::vector<RowType> data(rhs.m_data);
+                    m_data.swap(data);
                     m_nvals = rhs.m_nvals;
-                    m_data = rhs.m_data;
                 }
                 return *this;
             }
@@ -451,13 +452,16 @@ namespace grb
                 IndexType old_nvals = m_data[row_index].size();
                 IndexType new_nvals = row_data.size();
 
-                m_nvals = m_nvals + new_nvals - old_nvals;
-                //m_data[row_index] = row_data;   // swap here?
-                m_data[row_index].clear();
+                // build the new row completely before replacing the old one
+                RowType new_row;
+                new_row.reserve(new_nvals);
                 for (auto&& [idx, val] : row_data)
                 {
-                    m_data[row_index].emplace_back(idx, static_cast<ScalarT>(val));
+                    new_row.emplace_back(idx, static_cast<ScalarT>(val));
                 }
+
+                m_data[row_index].swap(new_row);
+                m_nvals = m_nvals + new_nvals - old_nvals;
             }
 
             // When not casting vector swap used...should we use move semantics?
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 2efb6a0..49a697d 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -133,8 +133,9 @@ namespace grb
                         throw DimensionException();
                     }
 
+                    std::vector<RowType> data(rhs.m_data);
+                    m_data.swap(data);
                     m_nvals = rhs.m_nvals;
-                    m_data = rhs.m_data;
                 }
                 return *this;
             }
@@ -451,13 +452,16 @@ namespace grb
                 IndexType old_nvals = m_data[row_index].size();
                 IndexType new_nvals = row_data.size();
 
-                m_nvals = m_nvals + new_nvals - old_nvals;
-                //m_data[row_index] = row_data;   // swap here?
-                m_data[row_index].clear();
+                // build the new row completely before replacing the old one
+                RowType new_row;
+                new_row.reserve(new_nvals);
                 for (auto&& [idx, val] : row_data)
                 {
-                    m_data[row_index].emplace_back(idx, static_cast<ScalarT>(val));
+                    new_row.emplace_back(idx, static_cast<ScalarT>(val));
                 }
+
+                m_data[row_index].swap(new_row);
+                m_nvals = m_nvals + new_nvals - old_nvals;
             }
 
             // When not casting vector swap used...should we use move semantics?
-- 
2.43.0


From 472926cbd3a8c53eaa4ee480693ced32a0e9a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 08/36] fix: exchange the stored-value counts in
 LilSparseMatrix::swap

The right-hand side kept its old nvals() with the other matrix's rows.
---
 .../platforms/optimized_sequential/LilSparseMatrix.hpp          | 2 +-
 src/graphblas/platforms/sequential/LilSparseMatrix.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 49a697d..4ef88e4 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -425,7 +425,7 @@ namespace grb
                 {
                     m_data[idx].swap(rhs.m_data[idx]);
                 }
-                m_nvals = rhs.m_nvals;
+                std::swap(m_nvals, rhs.m_nvals);
             }
 
             // Row access
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 49a697d..4ef88e4 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -425,7 +425,7 @@ namespace grb
                 {
                     m_data[idx].swap(rhs.m_data[idx]);
                 }
-                m_nvals = rhs.m_nvals;
+                std::swap(m_nvals, rhs.m_nvals);
             }
 
             // Row access
-- 
2.43.0


From 493698ffd98660a6ee5253794ad418b87bc33a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 09/36] fix: keep BitmapSparseVector consistent when assignment
 or setContents fails

The stored-value count or the bitmap was updated before an element copy that
can fail, leaving nvals() disagreeing with the stored tuples.
---
 .../BitmapSparseVector.hpp                     | 18 ++++++++++--------
 .../sequential/BitmapSparseVector.hpp          | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 4b25969..f168165 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -201,9 +201,12 @@ namespace grb
                         throw DimensionException();
                     }
 
+                    std::vector<ScalarT> vals(rhs.m_vals);
+                    std::vector<bool>    bitmap(rhs.m_bitmap);
+
+                    m_vals.swap(vals);
+                    m_bitmap.swap(bitmap);
                     m_nvals = rhs.m_nvals;
-                    m_vals = rhs.m_vals;
-                    m_bitmap = rhs.m_bitmap;
                 }
                 return *this;
             }
@@ -221,11 +224,10 @@ namespace grb
                 {
                     throw DimensionException();
                 }
-                for (IndexType idx = 0; idx < rhs.size(); ++idx)
-                {
-                    m_vals[idx] = rhs[idx];
-                    m_bitmap[idx] = true;
-                }
+                std::vector<ScalarT> vals(rhs);
+
+                m_vals.swap(vals);
+                m_bitmap.assign(m_size, true);
                 m_nvals = m_size;
                 return *this;
             }
@@ -506,8 +508,8 @@ namespace grb
                 clear();
                 for (auto&& [idx, val] : contents)
                 {
-                    m_bitmap[idx] = true;
                     m_vals[idx]   = static_cast<ScalarT>(val);
+                    m_bitmap[idx] = true;
                     ++m_nvals;
                 }
             }
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 4b25969..f168165 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -201,9 +201,12 @@ namespace grb
                         throw DimensionException();
                     }
 
+                    std::vector<ScalarT> vals(rhs.m_vals);
+                    std::vector<bool>    bitmap(rhs.m_bitmap);
+
+                    m_vals.swap(vals);
+                    m_bitmap.swap(bitmap);
                     m_nvals = rhs.m_nvals;
-                    m_vals = rhs.m_vals;
-                    m_bitmap = rhs.m_bitmap;
                 }
                 return *this;
             }
@@ -221,11 +224,10 @@ namespace grb
                 {
                     throw DimensionException();
                 }
-                for (IndexType idx = 0; idx < rhs.size(); ++idx)
-                {
-                    m_vals[idx] = rhs[idx];
-                    m_bitmap[idx] = true;
-                }
+                std::vector<ScalarT> vals(rhs);
+
+                m_vals.swap(vals);
+                m_bitmap.assign(m_size, true);
                 m_nvals = m_size;
                 return *this;
             }
@@ -506,8 +508,8 @@ namespace grb
                 clear();
                 for (auto&& [idx, val] : contents)
                 {
-                    m_bitmap[idx] = true;
                     m_vals[idx]   = static_cast<ScalarT>(val);
+                    m_bitmap[idx] = true;
                     ++m_nvals;
                 }
             }
-- 
2.43.0


From 181f019f4e892c926c9495a8d6bdc29e89e08b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 10/36] fix: do not fill the output in place in optimized
 mxm(A', B')

The rows of C were appended to directly and counted only at the end, so a
failing allocation or operator left nvals() disagreeing with the rows.
---
 .../platforms/optimized_sequential/sparse_mxm_ATBT.hpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index 9b18889..da684cd 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -60,9 +60,9 @@ namespace grb
             LilSparseMatrix<AScalarT> const &A,
             LilSparseMatrix<BScalarT> const &B)
         {
-            C.clear();
             using TScalarType = typename SemiringT::result_type;
             typename LilSparseMatrix<TScalarType>::RowType T_row;
+            LilSparseMatrix<CScalarT> T(C.nrows(), C.ncols());
 
             // compute transpose T = B +.* A (one row at a time and transpose)
             for (IndexType i = 0; i < B.nrows(); ++i)
@@ -86,10 +86,11 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    C[j].emplace_back(i, static_cast<CScalarT>(std::get<1>(t)));
+                    T[j].emplace_back(i, static_cast<CScalarT>(std::get<1>(t)));
                 }
             }
-            C.recomputeNvals();
+            T.recomputeNvals();
+            C.swap(T);
         }
 
         //**********************************************************************
-- 
2.43.0


From 8b9551cbda9d4eec18ce47ec6d78708fc0f7f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 11/36] fix: return a reference from Vector::operator=

It returned a full copy of the vector.
---
 src/graphblas/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/Vector.hpp b/src/graphblas/Vector.hpp
index 5e3f464..1897328 100644
--- a/src/graphblas/Vector.hpp
+++ b/src/graphblas/Vector.hpp
@@ -108,7 +108,7 @@ namespace grb
          * @todo Should assignment work only if dimensions are same?
          * @note This clears any previous information
          */
-        Vector<ScalarT, TagsT...>
+        Vector<ScalarT, TagsT...> &
         operator=(Vector<ScalarT, TagsT...> const &rhs)
         {
             if (this != &rhs)
-- 
2.43.0


From 49298dda826b80a0a1f3f83f6d6d63181fa2287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 12/36] fix: reject out-of-range tuples in Matrix::build before
 storing any

---
 .../optimized_sequential/LilSparseMatrix.hpp         | 12 ++++++++++++
 .../platforms/sequential/LilSparseMatrix.hpp         | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 4ef88e4..e45cf43 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -179,6 +179,18 @@ namespace grb
                 /// @todo should this function call clear?
                 //clear();
 
+                // Reject out of range tuples before anything is stored
+                RAIteratorI row_it(i_it);
+                RAIteratorJ col_it(j_it);
+                for (IndexType ix = 0; ix < n; ++ix)
+                {
+                    if (*row_it >= m_num_rows || *col_it >= m_num_cols)
+                    {
+                        throw IndexOutOfBoundsException("LilSparseMatrix::build");
+                    }
+                    ++row_it; ++col_it;
+                }
+
                 /// @todo DOING SOMETHING REALLY STUPID RIGHT NOW
                 for (IndexType ix = 0; ix < n; ++ix)
                 {
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 4ef88e4..e45cf43 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -179,6 +179,18 @@ namespace grb
                 /// @todo should this function call clear?
                 //clear();
 
+                // Reject out of range tuples before anything is stored
+                RAIteratorI row_it(i_it);
+                RAIteratorJ col_it(j_it);
+                for (IndexType ix = 0; ix < n; ++ix)
+                {
+                    if (*row_it >= m_num_rows || *col_it >= m_num_cols)
+                    {
+                        throw IndexOutOfBoundsException("LilSparseMatrix::build");
+                    }
+                    ++row_it; ++col_it;
+                }
+
                 /// @todo DOING SOMETHING REALLY STUPID RIGHT NOW
                 for (IndexType ix = 0; ix < n; ++ix)
                 {
-- 
2.43.0


From e40b4ffbde53d0e485427e5dec8457b6e3a63c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 13/36] fix: reject empty data in the dense Matrix constructors

---
 .../optimized_sequential/LilSparseMatrix.hpp       | 14 ++++++++++++--
 .../platforms/sequential/LilSparseMatrix.hpp       | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index e45cf43..99ff94d 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -72,8 +72,13 @@ namespace grb
             // Constructor - dense from dense matrix
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (m_num_rows == 0 || m_num_cols == 0)
+                {
+                    throw InvalidValueException("LilSparseMatrix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
@@ -95,8 +100,13 @@ namespace grb
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val,
                             ScalarT zero)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (m_num_rows == 0 || m_num_cols == 0)
+                {
+                    throw InvalidValueException("LilSparseMatrix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index e45cf43..99ff94d 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -72,8 +72,13 @@ namespace grb
             // Constructor - dense from dense matrix
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (m_num_rows == 0 || m_num_cols == 0)
+                {
+                    throw InvalidValueException("LilSparseMatrix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
@@ -95,8 +100,13 @@ namespace grb
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val,
                             ScalarT zero)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (m_num_rows == 0 || m_num_cols == 0)
+                {
+                    throw InvalidValueException("LilSparseMatrix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
-- 
2.43.0


From 3c53910e7a57350a200f74820b992109fc909612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 14/36] fix: evaluate multiply operands in order in mxv with a
 transposed matrix

---
 src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp | 3 ++-
 src/graphblas/platforms/sequential/sparse_mxv.hpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..185c29c 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, SwapMultOperands<SemiringT>{op},
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..185c29c 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, SwapMultOperands<SemiringT>{op},
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From 44ab82263d2d944357d078217f5114f171765f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 15/36] fix: keep B's element type in eWiseAdd and eWiseMult
 with a transposed B

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From 34aeb505136840cb1e71ea368bcad2a070335362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:00 +0000
Subject: [PATCH 16/36] fix: assign constants correctly for unsorted and
 repeated indices

---
 .../optimized_sequential/sparse_assign.hpp    | 22 +++++++++++++++++--
 .../platforms/sequential/sparse_assign.hpp    | 22 +++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..32e5285 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -216,6 +216,22 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //**********************************************************************
+        // The distinct indices of a sequence in increasing order
+        template <typename SequenceT>
+        std::vector<IndexType> sortedIndices(SequenceT const &Indices)
+        {
+            std::vector<IndexType> sorted;
+            for (auto it = Indices.begin(); it != Indices.end(); ++it)
+            {
+                sorted.emplace_back(*it);
+            }
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()),
+                         sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -265,9 +281,11 @@ namespace grb
             //                row_indices.begin(), row_indices.end(),
             //                col_indices.begin(), col_indices.end());
 
+            // T's rows have to be filled in increasing column order
+            auto columns(sortedIndices(col_indices));
             assignConstant(T, val,
                            row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           columns.begin(), columns.end());
         }
 
         //=====================================================================
@@ -510,7 +528,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto seq = sortedIndices(setupIndices(indices, w.size()));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..32e5285 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -216,6 +216,22 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //**********************************************************************
+        // The distinct indices of a sequence in increasing order
+        template <typename SequenceT>
+        std::vector<IndexType> sortedIndices(SequenceT const &Indices)
+        {
+            std::vector<IndexType> sorted;
+            for (auto it = Indices.begin(); it != Indices.end(); ++it)
+            {
+                sorted.emplace_back(*it);
+            }
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()),
+                         sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -265,9 +281,11 @@ namespace grb
             //                row_indices.begin(), row_indices.end(),
             //                col_indices.begin(), col_indices.end());
 
+            // T's rows have to be filled in increasing column order
+            auto columns(sortedIndices(col_indices));
             assignConstant(T, val,
                            row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           columns.begin(), columns.end());
         }
 
         //=====================================================================
@@ -510,7 +528,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto seq = sortedIndices(setupIndices(indices, w.size()));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
-- 
2.43.0


From d95992b8f676f702c0dac435ec072ece9950b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:37 +0000
Subject: [PATCH 17/36] fix: reject assign with AllIndices and a source of
 another size

---
 .../optimized_sequential/sparse_assign.hpp         |  6 ++++++
 .../optimized_sequential/sparse_helpers.hpp        | 14 ++++++++++++++
 .../platforms/sequential/sparse_assign.hpp         |  6 ++++++
 .../platforms/sequential/sparse_helpers.hpp        | 14 ++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 32e5285..3172068 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -308,6 +308,8 @@ namespace grb
 
             check_index_array_content(indices, w.size(),
                                       "assign(std vec): indices content check");
+            check_all_indices_size(indices, u.size(), w.size(),
+                                   "assign(std vec): u.size != w.size");
 
             std::vector<std::tuple<IndexType, IndexType>> oi_pairs;
             compute_outin_mapping(setupIndices(indices, u.size()), oi_pairs);
@@ -366,6 +368,10 @@ namespace grb
                                       "assign(std mat): row_indices content check");
             check_index_array_content(col_indices, C.ncols(),
                                       "assign(std mat): col_indices content check");
+            check_all_indices_size(row_indices, A.nrows(), C.nrows(),
+                                   "assign(std mat): A.nrows != C.nrows");
+            check_all_indices_size(col_indices, A.ncols(), C.ncols(),
+                                   "assign(std mat): A.ncols != C.ncols");
 
             // =================================================================
             // Expand to T
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 5b2ae36..9cb6614 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -410,6 +410,20 @@ namespace grb
             }
         }
 
+        //********************************************************************
+        // AllIndices addresses a whole dimension, which must have the given size
+        template <typename SequenceT>
+        void check_all_indices_size(SequenceT   const &array,
+                                    IndexType          size,
+                                    IndexType          dim,
+                                    std::string const &msg)
+        {
+            if (is_all_sequence<SequenceT>::value && (size != dim))
+            {
+                throw DimensionException(msg);
+            }
+        }
+
         //********************************************************************
         // ALL SUPPORT
         // This is where we turn alls into the correct range
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 32e5285..3172068 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -308,6 +308,8 @@ namespace grb
 
             check_index_array_content(indices, w.size(),
                                       "assign(std vec): indices content check");
+            check_all_indices_size(indices, u.size(), w.size(),
+                                   "assign(std vec): u.size != w.size");
 
             std::vector<std::tuple<IndexType, IndexType>> oi_pairs;
             compute_outin_mapping(setupIndices(indices, u.size()), oi_pairs);
@@ -366,6 +368,10 @@ namespace grb
                                       "assign(std mat): row_indices content check");
             check_index_array_content(col_indices, C.ncols(),
                                       "assign(std mat): col_indices content check");
+            check_all_indices_size(row_indices, A.nrows(), C.nrows(),
+                                   "assign(std mat): A.nrows != C.nrows");
+            check_all_indices_size(col_indices, A.ncols(), C.ncols(),
+                                   "assign(std mat): A.ncols != C.ncols");
 
             // =================================================================
             // Expand to T
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 5b2ae36..9cb6614 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -410,6 +410,20 @@ namespace grb
             }
         }
 
+        //********************************************************************
+        // AllIndices addresses a whole dimension, which must have the given size
+        template <typename SequenceT>
+        void check_all_indices_size(SequenceT   const &array,
+                                    IndexType          size,
+                                    IndexType          dim,
+                                    std::string const &msg)
+        {
+            if (is_all_sequence<SequenceT>::value && (size != dim))
+            {
+                throw DimensionException(msg);
+            }
+        }
+
         //********************************************************************
         // ALL SUPPORT
         // This is where we turn alls into the correct range
-- 
2.43.0


From 10d40e4899db4362594596ec5176d38f3b802fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 18/36] fix: batch and wavefront BFS parents must not be
 computed in the graph's scalar type

---
 src/algorithms/bfs.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/algorithms/bfs.hpp b/src/algorithms/bfs.hpp
index 0dc78a6..b511315 100644
--- a/src/algorithms/bfs.hpp
+++ b/src/algorithms/bfs.hpp
@@ -126,7 +126,6 @@ namespace algorithms
              WavefrontVectorT        wavefront,   // copy is intentional
              ParentListVectorT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is N-vector
@@ -166,7 +165,7 @@ namespace algorithms
             grb::vxm(wavefront,
                      grb::complement(grb::structure(parent_list)),
                      grb::NoAccumulate(),
-                     grb::MinFirstSemiring<T>(),
+                     grb::MinFirstSemiring<grb::IndexType>(),
                      wavefront, graph, grb::REPLACE);
 
             // We don't need to mask here since we did it in mxm.
@@ -174,8 +173,8 @@ namespace algorithms
             // parent_list<!parent_list,merge> += wavefront
             grb::apply(parent_list,
                        grb::NoMask(),
-                       grb::Plus<T>(),
-                       grb::Identity<T>(),
+                       grb::Plus<grb::IndexType>(),
+                       grb::Identity<grb::IndexType>(),
                        wavefront,
                        grb::MERGE);
         }
@@ -204,7 +203,6 @@ namespace algorithms
                    WavefrontMatrixT        wavefronts,   // copy is intentional
                    ParentListMatrixT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is RxN
@@ -221,7 +219,7 @@ namespace algorithms
         // Set the roots parents to themselves.
         grb::mxm(parent_list,
                  grb::NoMask(), grb::NoAccumulate(),
-                 grb::MinSecondSemiring<T>(),
+                 grb::MinSecondSemiring<grb::IndexType>(),
                  wavefronts, index_ramp);
 
         while (wavefronts.nvals() > 0)
@@ -229,7 +227,7 @@ namespace algorithms
             // convert all stored values to their column index
             grb::mxm(wavefronts,
                      grb::NoMask(), grb::NoAccumulate(),
-                     grb::MinSecondSemiring<T>(),
+                     grb::MinSecondSemiring<grb::IndexType>(),
                      wavefronts, index_ramp);
 
             // First because we are left multiplying wavefront rows
@@ -238,7 +236,7 @@ namespace algorithms
             grb::mxm(wavefronts,
                      grb::complement(grb::structure(parent_list)),
                      grb::NoAccumulate(),
-                     grb::MinFirstSemiring<T>(),
+                     grb::MinFirstSemiring<grb::IndexType>(),
                      wavefronts, graph, grb::REPLACE);
 
             // We don't need to mask here since we did it in mxm.
@@ -246,8 +244,8 @@ namespace algorithms
             // parent_list<!parent_list,merge> += wavefronts
             grb::apply(parent_list,
                        grb::NoMask(),
-                       grb::Plus<T>(),
-                       grb::Identity<T>(),
+                       grb::Plus<grb::IndexType>(),
+                       grb::Identity<grb::IndexType>(),
                        wavefronts,
                        grb::MERGE);
         }
-- 
2.43.0


From 6369ef0fcf53bf27382e5952b0c336c5a32eabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 19/36] fix: filtered and delta-stepping SSSP must not lose
 vertices at distance zero

---
 src/algorithms/sssp.hpp | 43 +++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 29d24e6..5e95f1b 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -236,18 +236,18 @@ namespace algorithms
                      new_dist, graph);
             //grb::print_vector(std::cout, new_dist, "new dist");
 
-            // new_dist_flags<new_dist> = new_dist .< dist
-            // (works even if new_dist has a stored zero
-            grb::eWiseAdd(new_dist_flags,
-                          grb::structure(new_dist),
-                          grb::NoAccumulate(),
-                          grb::LessThan<T>(),
-                          new_dist, dist, grb::REPLACE);
+            // new_dist_flags = new_dist .>= dist
+            // (only where there is a previous distance; works even if
+            // new_dist has a stored zero)
+            grb::eWiseMult(new_dist_flags,
+                           grb::NoMask(), grb::NoAccumulate(),
+                           grb::GreaterEqual<T>(),
+                           new_dist, dist);
             //grb::print_vector(std::cout, new_dist_flags, "new dist flags");
 
             // clear out any non-contributing paths
             grb::apply(new_dist,
-                       new_dist_flags,
+                       grb::complement(new_dist_flags),
                        grb::NoAccumulate(),
                        grb::Identity<T>(), new_dist, grb::REPLACE);
             //grb::print_vector(std::cout, new_dist, "new dist (cleared)");
@@ -313,7 +313,7 @@ namespace algorithms
         grb::Vector<bool> tBi(n);
         grb::Vector<bool> tnew(n);
         grb::Vector<bool> tcomp(n);
-        grb::Vector<bool> tless(n);
+        grb::Vector<bool> tworse(n);
         grb::Vector<bool> s(n);
 
         // t = infinity, t[src] = 0
@@ -370,7 +370,7 @@ namespace algorithms
             grb::apply(tBi, tBi, grb::NoAccumulate(),
                        grb::Identity<T>(), tBi, grb::REPLACE);
             //grb::print_vector(std::cerr, tBi,
-            //                        "tBi<tless> = tReq([i*d, (i+1)*d))");
+            //                        "tBi<tworse> = tReq([i*d, (i+1)*d))");
 
             // tm<tBi> = t
             grb::apply(tmasked, tBi, grb::NoAccumulate(),
@@ -396,26 +396,23 @@ namespace algorithms
                 // Don't tBi = 0
                 // tBi.clear();
 
-                // Note that the following ("masked less than") only
-                // works if the new distances are never zero.
-                // TODO: NEED STRUCTURE ONLY MASK here
-                // tless<tReq> = tReq .< t
-                grb::eWiseAdd(tless,
-                              tReq,
-                              grb::NoAccumulate(),
-                              grb::LessThan<T>(),
-                              tReq, t, grb::REPLACE);
-                //grb::print_vector(std::cerr, tless, "tless<tReq> = tReq .< t");
+                // tworse = tReq .>= t (only where there is a previous distance;
+                // its complement is where tReq improves on t or is the first)
+                grb::eWiseMult(tworse,
+                               grb::NoMask(), grb::NoAccumulate(),
+                               grb::GreaterEqual<T>(),
+                               tReq, t);
+                //grb::print_vector(std::cerr, tworse, "tworse = tReq .>= t");
 
-                // tBi<tless> = i*delta <= tReq < (i+1)*delta
+                // tBi<!tworse> = i*delta <= tReq < (i+1)*delta
                 grb::apply(tBi,
-                           tless,
+                           grb::complement(tworse),
                            grb::NoAccumulate(),
                            in_range, tReq, grb::REPLACE);
                 //grb::apply(tnew, tnew, grb::NoAccumulate(),
                 //                 grb::Identity<bool>(), tnew, grb::REPLACE);
                 //grb::print_vector(std::cerr, tBi,
-                //                        "tBi<tless> = tReq([i*d, (i+1)*d))");
+                //                        "tBi<tworse> = tReq([i*d, (i+1)*d))");
 
                 // t = min(t, tReq)
                 grb::eWiseAdd(t,
-- 
2.43.0


From f1322efdcd6b1891fb208bf87670409f91c4e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 20/36] fix: a self-loop must not change a vertex's distance to
 itself in apsp

---
 src/algorithms/apsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/apsp.hpp b/src/algorithms/apsp.hpp
index ef18690..b24691d 100644
--- a/src/algorithms/apsp.hpp
+++ b/src/algorithms/apsp.hpp
@@ -61,7 +61,7 @@ namespace algorithms
         auto Distances(grb::scaled_identity<grb::Matrix<T>>(num_vertices, 0));
         grb::eWiseAdd(Distances,
                       grb::NoMask(), grb::NoAccumulate(),
-                      grb::Plus<T>(),
+                      grb::Min<T>(),
                       Distances,
                       graph);
         grb::Matrix<T> col_k(num_vertices, 1);
-- 
2.43.0


From 7fa155cdb077f9c15e8eb562e8e007bf4d3b5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 21/36] fix: batch betweenness centrality must not leak its
 per-level matrices

---
 src/algorithms/bc.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 8688448..f0cd702 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -523,11 +523,11 @@ namespace algorithms
         NumSP.build(s, GrB_ALL_nsver, std::vector<int32_t>(nsver, 1));
 
         // ==================== BFS phase ====================
-        std::vector<grb::Matrix<bool>* > Sigmas;
+        std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
         while (Frontier.nvals() > 0)
         {
-            Sigmas.push_back(new grb::Matrix<bool>(n, nsver));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]),
                        grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(),
@@ -602,10 +602,6 @@ namespace algorithms
             --d;
         }
 
-        for (auto it = Sigmas.begin(); it != Sigmas.end(); ++it)
-        {
-            delete *it;
-        }
         //std::cerr << "======= END BACKPROP phase =======" << std::endl;
 
         grb::Vector<float> result(n);
@@ -694,7 +690,7 @@ namespace algorithms
         grb::Matrix<int32_t> NumSP(Frontier);
 
         // ==================== BFS phase ====================
-        std::vector<grb::Matrix<bool>* > Sigmas;
+        std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
         while (Frontier.nvals() > 0)
         {
@@ -708,7 +704,7 @@ namespace algorithms
                      grb::REPLACE);
 
             // Sigma[d] = (bool)F
-            Sigmas.push_back(new grb::Matrix<bool>(n, nsver));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]),
                        grb::NoMask(),
                        grb::NoAccumulate(),
-- 
2.43.0


From dcccdb56ddede8b4f046c32b4c474019b584fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 22/36] fix: betweenness centrality (alt_trans_v2) must not
 stop after ten BFS levels

---
 src/algorithms/bc.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index f0cd702..3754996 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -124,9 +124,7 @@ namespace algorithms
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
 
-        // For testing purpose we only allow 10 iterations so it doesn't
-        // get into an infinite loop
-        while (Frontier.nvals() > 0 && d < 10)
+        while (Frontier.nvals() > 0)
         {
             GRB_BC_LOG("------- BFS iteration " << d << " --------");
 
-- 
2.43.0


From 89a24c92e22e2b94f55e04e8bf3ff78c6b06f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 23/36] fix: BC_update_appendixB5 must dimension its per-level
 matrices like the frontier

---
 src/algorithms/appendix_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 6612c5a..a4894f2 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -282,7 +282,7 @@ namespace algorithms
 
         // ==================== BFS phase ====================
         while (Frontier.nvals() > 0) {
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(), Frontier);
 
-- 
2.43.0


From 60e537b6464f93d713a646915aed03c0b21c3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 24/36] fix: BC_appendixB4 must not let an earlier source's
 centralities leak into a later one's

---
 src/algorithms/appendix_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index a4894f2..e01434c 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -207,12 +207,13 @@ namespace algorithms
 
         // BC computation phase
         grb::Vector<float> t1(n), t2(n), t3(n), t4(n);
+        grb::Vector<float> update(n);  // contribution of this source only
 
         for (int i = d-1; i > 0; --i) {
             grb::assign(t1, grb::NoMask(), grb::NoAccumulate(),
                         1.f, grb::AllIndices());
             grb::eWiseAdd(t1, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), t1, delta);
+                          grb::Plus<float>(), t1, update);
             grb::extract(t2, grb::NoMask(), grb::NoAccumulate(),
                          grb::transpose(sigma), grb::AllIndices(), i);
             grb::eWiseMult(t2, grb::NoMask(), grb::NoAccumulate(),
@@ -223,9 +224,12 @@ namespace algorithms
                          grb::transpose(sigma), grb::AllIndices(), i-1);
             grb::eWiseMult(t4, grb::NoMask(), grb::NoAccumulate(),
                            grb::Times<float>(), t4, t3);
-            grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), delta, t4);
+            grb::eWiseAdd(update, grb::NoMask(), grb::NoAccumulate(),
+                          grb::Plus<float>(), update, t4);
         }
+
+        grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
+                      grb::Plus<float>(), delta, update);
     }
 
     //************************************************************************
-- 
2.43.0


From 2c2dcb55cc5af1505aab46f68c2ac4ecd7d7b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 25/36] fix: page_rank must not compute the teleport term in
 the graph's scalar type

---
 src/algorithms/page_rank.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index ba0b628..3e3f7ca 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -98,7 +98,7 @@ namespace algorithms
         auto add_scaled_teleport =
             std::bind(grb::Plus<RealT>(),
                       std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<T>(rows));
+                      (1.0 - damping_factor)/static_cast<RealT>(rows));
 
         grb::assign(page_rank,
                     grb::NoMask(),
@@ -166,7 +166,7 @@ namespace algorithms
         grb::assign(new_rank,
                     grb::NoMask(),
                     grb::NoAccumulate(),
-                    (1.0 - damping_factor) / static_cast<T>(rows),
+                    (1.0 - damping_factor) / static_cast<RealT>(rows),
                     grb::AllIndices());
         grb::eWiseAdd(page_rank,
                       grb::complement(page_rank),
-- 
2.43.0


From 86b8b8cf601b454b3ed6883fefd2073f224978c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 26/36] fix: page_rank must give vertices without in-edges
 their rank and never add the teleport twice

---
 src/algorithms/page_rank.hpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index 3e3f7ca..e67f0ec 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -95,11 +95,6 @@ namespace algorithms
                    m);
         //grb::print_matrix(std::cout, m, "Scaled Graph");
 
-        auto add_scaled_teleport =
-            std::bind(grb::Plus<RealT>(),
-                      std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<RealT>(rows));
-
         grb::assign(page_rank,
                     grb::NoMask(),
                     grb::NoAccumulate(),
@@ -115,22 +110,22 @@ namespace algorithms
             //          << std::endl;
             //print_vector(std::cout, page_rank, "rank");
 
+            // Every vertex receives the teleport term, also those that no
+            // edge leads to.
+            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
+            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
+            grb::assign(new_rank,
+                        grb::NoMask(),
+                        grb::NoAccumulate(),
+                        (1.0 - damping_factor)/static_cast<RealT>(rows),
+                        grb::AllIndices());
+
             // Compute the new rank: [1 x M][M x N] = [1 x N]
             grb::vxm(new_rank,
                      grb::NoMask(),
-                     grb::Second<RealT>(),
+                     grb::Plus<RealT>(),
                      grb::ArithmeticSemiring<RealT>(),
                      page_rank, m);
-            //print_vector(std::cout, new_rank, "step 1:");
-
-            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
-            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
-            //use apply:
-            grb::apply(new_rank,
-                       grb::NoMask(),
-                       grb::NoAccumulate(),
-                       add_scaled_teleport,
-                       new_rank);
             //grb::print_vector(std::cout, new_rank, "new_rank");
 
             // Test for convergence - compute squared error
-- 
2.43.0


From 97813fae52d2721956f064f7ec7861a8b5d5962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 27/36] fix: a self-loop at a source must not change
 betweenness centrality

---
 src/algorithms/bc.hpp | 72 ++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 3754996..b0b5f59 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -99,13 +99,6 @@ namespace algorithms
         // The current frontier for all BFS's (from all roots)
         // It is initialized to the out neighbors of the specified roots
         grb::Matrix<int32_t> Frontier(nsver, n);     // F is nsver x n (rows)
-        grb::extract(Frontier,
-                     grb::NoMask(),
-                     grb::NoAccumulate(),
-                     A,
-                     s,
-                     grb::AllIndices());
-        GRB_BC_LOG("initial frontier " << Frontier);
 
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized with the each starting root in 's':
@@ -119,6 +112,16 @@ namespace algorithms
         }
         NumSP.build(GrB_ALL_nsver, s, std::vector<int32_t>(nsver, 1));
 
+        // The source itself is never in the frontier (self-loops)
+        grb::extract(Frontier,
+                     grb::complement(NumSP),
+                     grb::NoAccumulate(),
+                     A,
+                     s,
+                     grb::AllIndices(),
+                     grb::REPLACE);
+        GRB_BC_LOG("initial frontier " << Frontier);
+
         // ==================== BFS phase ====================
         GRB_BC_LOG("======= START BFS phase ======");
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
@@ -333,12 +336,6 @@ namespace algorithms
         // The current frontier for all BFS's (from all roots)
         // It is initialized to the out neighbors of the specified roots
         grb::Matrix<int32_t> Frontier(nsver, n);     // F is nsver x n (rows)
-        grb::extract(Frontier,
-                     grb::NoMask(),
-                     grb::NoAccumulate(),
-                     A,
-                     s,
-                     grb::AllIndices());
 
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized with the each starting root in 's':
@@ -352,6 +349,15 @@ namespace algorithms
         }
         NumSP.build(GrB_ALL_nsver, s, std::vector<int32_t>(nsver, 1));
 
+        // The source itself is never in the frontier (self-loops)
+        grb::extract(Frontier,
+                     grb::complement(NumSP),
+                     grb::NoAccumulate(),
+                     A,
+                     s,
+                     grb::AllIndices(),
+                     grb::REPLACE);
+
         // ==================== BFS phase ====================
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
@@ -508,11 +514,6 @@ namespace algorithms
         {
             GrB_ALL_nsver.push_back(idx); // tilln
         }
-        grb::extract(Frontier,
-                     grb::NoMask(), grb::NoAccumulate(),
-                     grb::transpose(A),
-                     grb::AllIndices(),
-                     s);
 
         // NumSP holds number of shortest paths to a vertex from a given root
         // NumSP is initialized with the each starting root in 's':
@@ -520,6 +521,14 @@ namespace algorithms
         grb::Matrix<int32_t> NumSP(n, nsver);
         NumSP.build(s, GrB_ALL_nsver, std::vector<int32_t>(nsver, 1));
 
+        // The source itself is never in the frontier (self-loops)
+        grb::extract(Frontier,
+                     grb::complement(NumSP), grb::NoAccumulate(),
+                     grb::transpose(A),
+                     grb::AllIndices(),
+                     s,
+                     grb::REPLACE);
+
         // ==================== BFS phase ====================
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
@@ -863,12 +872,14 @@ namespace algorithms
         // F is the current frontier for all BFS's (from all roots)
         // It is initialized with the out neighbors for each root
         grb::Matrix<int32_t> F(p, N);
+        // The source itself is never in the frontier (self-loops)
         grb::extract(F,
-                     grb::NoMask(),
+                     grb::complement(P),
                      grb::NoAccumulate(),
                      graph,
                      src_nodes,
-                     grb::AllIndices());
+                     grb::AllIndices(),
+                     grb::REPLACE);
 
         // ==================== BFS phase ====================
         std::vector<std::unique_ptr<grb::Matrix<int32_t>>> Sigmas;
@@ -1016,8 +1027,12 @@ namespace algorithms
             std::vector<std::unique_ptr<grb::Vector<bool>>> search;
             VectorT frontier(num_nodes);
 
+            VectorT n_shortest_paths(num_nodes);
+            n_shortest_paths.setElement(i, static_cast<T>(1));
+
+            // The source itself is never in the frontier (self-loops)
             grb::extract(frontier,
-                         grb::NoMask(),
+                         grb::complement(n_shortest_paths),
                          grb::NoAccumulate(),
                          grb::transpose(graph),
                          // AOM - This might be wrong. Maybe, it should be col indices
@@ -1025,9 +1040,6 @@ namespace algorithms
                          i,
                          grb::REPLACE);
 
-            VectorT n_shortest_paths(num_nodes);
-            n_shortest_paths.setElement(i, static_cast<T>(1));
-
             grb::IndexType depth = 0;
             while (frontier.nvals() > 0)
             {
@@ -1167,16 +1179,18 @@ namespace algorithms
         grb::IndexType depth;
         for (grb::IndexType root = 0; root < num_nodes; root++)
         {
+            VectorT n_shortest_paths(num_nodes);
+            n_shortest_paths.setElement(root, 1);
+
+            // The source itself is never in the frontier (self-loops)
             VectorT frontier(num_nodes);
             grb::extract(frontier,
-                         grb::NoMask(),
+                         grb::complement(n_shortest_paths),
                          grb::NoAccumulate(),
                          grb::transpose(graph),
                          grb::AllIndices(),
-                         root);
-
-            VectorT n_shortest_paths(num_nodes);
-            n_shortest_paths.setElement(root, 1);
+                         root,
+                         grb::REPLACE);
 
             MatrixT update(num_nodes, num_nodes);
             VectorT flow(num_nodes);
-- 
2.43.0


From b0a11427362d2d79a60d39e276d2267118822d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 28/36] fix: normalize_cols must accept rectangular matrices

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0


From 983c522131b4847d0b75ecde81b2a93e9bdb3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 29/36] fix: split must replace, not merge with, earlier
 contents of its outputs

---
 src/graphblas/matrix_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 4840561..7085131 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -123,6 +123,9 @@ namespace grb
                 vL.push_back(v[idx]);
             }
         }
+        // the outputs hold the two portions of A and nothing else
+        L.clear();
+        U.clear();
         L.build(iL.begin(), jL.begin(), vL.begin(), vL.size());
         U.build(iU.begin(), jU.begin(), vU.begin(), vU.size());
     }
-- 
2.43.0


From c9dc6c8033ba722d4ff6f152f023cd7be0531594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 30/36] fix: louvain clustering must not loop forever on a
 vertex with no cluster to choose from

---
 src/algorithms/cluster_louvain.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algorithms/cluster_louvain.hpp b/src/algorithms/cluster_louvain.hpp
index 306787d..4866d6e 100644
--- a/src/algorithms/cluster_louvain.hpp
+++ b/src/algorithms/cluster_louvain.hpp
@@ -216,6 +216,12 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // with no cluster to choose from the vertex stays where it is
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
                     while (t.nvals() != 1)
                     {
@@ -456,6 +462,12 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // with no cluster to choose from the vertex stays where it is
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
                     while (t.nvals() != 1)
                     {
-- 
2.43.0


From 773b242796110ac512f0d12f38eeef0070004f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 31/36] fix: get_cluster_assignments must size its result by
 the number of vertices (columns)

---
 src/algorithms/cluster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/cluster.hpp b/src/algorithms/cluster.hpp
index d6a6784..c899b13 100644
--- a/src/algorithms/cluster.hpp
+++ b/src/algorithms/cluster.hpp
@@ -59,7 +59,7 @@ namespace algorithms
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::IndexType num_nodes(cluster_matrix.nrows());
+        grb::IndexType num_nodes(cluster_matrix.ncols());
 
         grb::IndexType nnz = cluster_matrix.nvals();
         grb::IndexArrayType cluster_ids(nnz), vertex_ids(nnz);
-- 
2.43.0


From 79af041ff3d92b288106f612e5c35e6a9fa94f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 32/36] fix: maxflow_ford_fulk must not stop after nvals
 augmentations

Shortest augmenting paths may be needed more often than the graph has
edges (up to vertices * edges times), so the flow came out too small.
---
 src/algorithms/maxflow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index cca03d1..f7f419f 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -341,7 +341,7 @@ namespace algorithms
 
         grb::IndexType count(0);
         while (maxflow_bfs(R, source, sink, index_ramp, M) &&
-               count++ < graph.nvals())
+               count++ < num_nodes * graph.nvals())
         {
             //std::cerr << "----------- Iteration: " << count << " -----------\n";
             //grb::print_matrix(std::cerr, M, "M (path)");
-- 
2.43.0


From 9d104c481f0df933f63b1eb0f47c9e370ff86c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 33/36] fix: graph_distance and sssp_delta_step must not clear
 their output before the start vertex is checked

---
 src/algorithms/metrics.hpp | 5 +++++
 src/algorithms/sssp.hpp    | 1 -
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/metrics.hpp b/src/algorithms/metrics.hpp
index 2c7592d..b285f1e 100644
--- a/src/algorithms/metrics.hpp
+++ b/src/algorithms/metrics.hpp
@@ -139,6 +139,11 @@ namespace algorithms
             throw grb::DimensionException();
         }
 
+        if (sid >= rows)
+        {
+            throw grb::IndexOutOfBoundsException();
+        }
+
         result.clear();
         result.setElement(sid, static_cast<T>(0));
 
diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 5e95f1b..226652b 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -304,7 +304,6 @@ namespace algorithms
         //grb::print_matrix(std::cerr, graph, "A");
 
         grb::IndexType n(graph.nrows());  /// @todo assert nrows = ncols
-        paths.clear();                    /// @todo assert size = nrows
 
         grb::Vector<T>    t(n);
         grb::Vector<T>    tmasked(n);
-- 
2.43.0


From f39f0d4c7c0034bd18bf7a2e8f7b75eaf3ea1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 34/36] fix: the BFS variants must reject operands of the wrong
 shape before they touch the output

---
 src/algorithms/bfs.hpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/algorithms/bfs.hpp b/src/algorithms/bfs.hpp
index b511315..964cff9 100644
--- a/src/algorithms/bfs.hpp
+++ b/src/algorithms/bfs.hpp
@@ -56,6 +56,11 @@ namespace algorithms
     {
         grb::IndexType const N(graph.nrows());
 
+        if ((graph.ncols() != N) || (parent_list.size() != N))
+        {
+            throw grb::DimensionException();
+        }
+
         // assert parent_list is N-vector
         // assert source is in proper range
         // assert parent_list ScalarType is grb::IndexType
@@ -128,6 +133,12 @@ namespace algorithms
     {
         grb::IndexType const N(graph.nrows());
 
+        if ((graph.ncols() != N) || (wavefront.size() != N) ||
+            (parent_list.size() != N))
+        {
+            throw grb::DimensionException();
+        }
+
         // assert parent_list is N-vector
         // assert wavefront is N-vector
         // assert parent_list ScalarType is grb::IndexType
@@ -205,6 +216,13 @@ namespace algorithms
     {
         grb::IndexType const N(graph.nrows());
 
+        if ((graph.ncols() != N) || (wavefronts.ncols() != N) ||
+            (parent_list.ncols() != N) ||
+            (parent_list.nrows() != wavefronts.nrows()))
+        {
+            throw grb::DimensionException();
+        }
+
         // assert parent_list is RxN
         // assert wavefront is RxN
         // assert parent_list ScalarType is grb::IndexType
@@ -272,7 +290,10 @@ namespace algorithms
     {
         grb::IndexType const N(graph.nrows());
 
-        /// @todo Assert graph is square
+        if ((graph.ncols() != N) || (levels.size() != N))
+        {
+            throw grb::DimensionException();
+        }
 
         grb::Vector<bool> wavefront(N);
         wavefront.setElement(source, true);
@@ -320,8 +341,13 @@ namespace algorithms
                    WavefrontMatrixT   wavefront, //row vectors, copy made
                    LevelListMatrixT  &levels)
     {
-        /// @todo Assert graph is square
-        /// @todo Assert graph has a compatible shape with wavefront?
+        grb::IndexType const N(graph.nrows());
+
+        if ((graph.ncols() != N) || (wavefront.ncols() != N) ||
+            (levels.ncols() != N) || (levels.nrows() != wavefront.nrows()))
+        {
+            throw grb::DimensionException();
+        }
 
         unsigned int depth = 0;
 
@@ -387,7 +413,7 @@ namespace algorithms
 
         grb::IndexType wsize(wavefront.size());
 
-        if ((grows != gcols) || (wsize != grows))
+        if ((grows != gcols) || (wsize != grows) || (levels.size() != grows))
         {
             throw grb::DimensionException();
         }
@@ -447,7 +473,8 @@ namespace algorithms
 
         grb::IndexType cols(wavefronts.ncols());
 
-        if ((grows != gcols) || (cols != grows))
+        if ((grows != gcols) || (cols != grows) ||
+            (levels.ncols() != cols) || (levels.nrows() != wavefronts.nrows()))
         {
             throw grb::DimensionException();
         }
@@ -508,7 +535,7 @@ namespace algorithms
 
         grb::IndexType wsize(wavefront.size());
 
-        if ((grows != gcols) || (wsize != grows))
+        if ((grows != gcols) || (wsize != grows) || (levels.size() != grows))
         {
             throw grb::DimensionException();
         }
-- 
2.43.0


From b4ebafc933d86eb7f772b58712b0a97a24e75af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 35/36] fix: maximum flow must reject a non-square network and
 a source or sink out of range

---
 src/algorithms/maxflow.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index f7f419f..205fc15 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -182,6 +182,16 @@ namespace algorithms
 
         grb::IndexType num_nodes = rows;
 
+        if (cols != num_nodes)
+        {
+            throw grb::DimensionException();
+        }
+
+        if ((source >= num_nodes) || (sink >= num_nodes))
+        {
+            throw grb::IndexOutOfBoundsException();
+        }
+
         MatrixT flow(rows,cols);
 
         grb::Vector<T> height(num_nodes);
@@ -315,7 +325,15 @@ namespace algorithms
         using T = typename MatrixT::ScalarType;
         grb::IndexType num_nodes(graph.nrows());
 
-        // @todo assert graph matrix is square
+        if (graph.ncols() != num_nodes)
+        {
+            throw grb::DimensionException();
+        }
+
+        if ((source >= num_nodes) || (sink >= num_nodes))
+        {
+            throw grb::IndexOutOfBoundsException();
+        }
 
         // create index ramp for index_of() functionality
         grb::Vector<grb::IndexType> index_ramp(num_nodes);
-- 
2.43.0


From 728a9e6366fbac27af3cd49f18b757855f3ab604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 36/36] fix: split must reject outputs of another shape instead
 of clearing and half filling them

---
 src/graphblas/matrix_utils.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 7085131..a6128f6 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -99,6 +99,13 @@ namespace grb
 
         using T = typename MatrixT::ScalarType;
 
+        if ((L.nrows() != A.nrows()) || (L.ncols() != A.ncols()) ||
+            (U.nrows() != A.nrows()) || (U.ncols() != A.ncols()))
+        {
+            throw DimensionException();
+        }
+
+
         grb::IndexType nvals(A.nvals());
 
         grb::IndexArrayType i(nvals), j(nvals);
-- 
2.43.0

