From 79f6e646792242c9dfafc569387a63ea2383f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 01/26] fix: isPerm accepted distinct out-of-range values and
 leaked on rejection

isPerm({1,2}, 2) returned true because the values were only compared with
their positions when there was a duplicate.
---
 Utils.cpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..2793911 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -105,22 +105,13 @@ bool isPerm(const int *perm, int n)
   int *temp = new int[n];
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
-  int *last = unique(temp, temp + n);
-  if (last != temp + n) {
-    memcpy(temp, perm, sizeof(int)*n);
-    sort(temp, temp + n);
-
-    for (int i = 0; i < n; ++i) {
-      if (temp[i] == i - 1) {
-        printf("%d duplicated\n", i - 1);
-        assert(false);
-        return false;
-      }
-      else if (temp[i] != i) {
-        printf("%d missed\n", i);
-        assert(false);
-        return false;
-      }
+
+  for (int i = 0; i < n; ++i) {
+    if (temp[i] != i) {
+      printf("%d %s\n", temp[i] == i - 1 ? i - 1 : i, temp[i] == i - 1 ? "duplicated" : "missed");
+      delete[] temp;
+      assert(false);
+      return false;
     }
   }
   delete[] temp;
-- 
2.43.0


From 528c138d5dcfb2961c3e540c098b88e3334e5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 02/26] fix: parMemset and parMemcpy computed byte offsets in
 int

With 2 GB or more the offsets wrapped and the calls wrote outside the buffer.
---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 2793911..7f8bf5e 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0


From 3cae370219d65d36dd598a77f928bba8b61030b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 03/26] fix: MemoryPool returned misaligned blocks after a
 block of smaller alignment

---
 MemoryPool.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..1204151 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -127,21 +127,23 @@ size_t MemoryPool::getTail() const
 void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 {
   sz = (sz + align - 1)/align*align;
+  // the previous block may have been allocated with a smaller alignment
+  size_t begin = (tail_ + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
-    if (tail_ + sz >= size_) { // wrap around
+    if (begin + sz >= size_) { // wrap around
       tail_ = sz;
       assert(tail_ < head_); // check overflow
       return buffer_;
     }
     else {
-      tail_ += sz;
+      tail_ = begin + sz;
       return buffer_ + (tail_ - sz);
     }
   }
   else { // wrapped around
-    assert(tail_ + sz < head_); // check overflow
-    tail_ += sz;
+    assert(begin + sz < head_); // check overflow
+    tail_ = begin + sz;
     return buffer_ + (tail_ - sz);
   }
 }
@@ -152,16 +154,17 @@ void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
-      head_ = size_ - sz;
+      head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
     else {
-      head_ -= sz;
+      head_ = (head_ - sz)/align*align;
     }
   }
   else { // wrapped around
     assert(head_ > tail_ + sz); // check overflow
-    head_ -= sz;
+    head_ = (head_ - sz)/align*align;
+    assert(head_ > tail_); // check overflow
   }
 
   return buffer_ + head_;
-- 
2.43.0


From 945b4fb09cba5bcc4559d4c0da605b6a37474409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 04/26] fix: MemoryPool missed exhaustion when a request
 exceeds the pool

---
 MemoryPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 1204151..1decc6d 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -126,6 +126,7 @@ size_t MemoryPool::getTail() const
 
 void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 {
+  assert(sz <= size_); // check overflow
   sz = (sz + align - 1)/align*align;
   // the previous block may have been allocated with a smaller alignment
   size_t begin = (tail_ + align - 1)/align*align;
@@ -150,10 +151,12 @@ void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 
 void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 {
+  assert(sz <= size_); // check overflow
   sz = (sz + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
+      assert(sz <= size_); // check overflow
       head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
-- 
2.43.0


From a440582707e1137de82edac0d1207245b7d2572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 05/26] fix: index base conversion left extptr in the old base

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..26b2b0f 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -415,6 +415,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -436,6 +442,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From 46a99c339d82f14b1e4a6710ac95aceee17d6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 06/26] fix: the CSR copy constructor dropped extptr

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 26b2b0f..4314217 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From e0596efeaa17bbfa59246f457db6ff9a77210de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 07/26] fix: multiplyWithVector in place copied m instead of n
 source elements

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From 43b41c2cf86bb2b22e00fe80ff7af30d15fca5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 08/26] fix: SpMDM on 1-based matrices shifted the dense blocks
 by one element instead of one row stride

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 8618de182293891188189f4d2888243328348a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 09/26] fix: isSymmetric skipped the last column of 1-based
 matrices and crashed comparing values a matrix does not have

---
 CSR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 4314217..1c5a5e6 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -179,6 +179,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
   const int *extptr = this->extptr ? this->extptr - base : rowptr + 1;
   const int *colidx = this->colidx - base;
   const double *values = this->values ? this->values - base : NULL;
+  if (!values) checkValues = false;
 
   if (!printFirstNonSymmetry) {
     volatile bool isSymmetric = true;
@@ -193,7 +194,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -219,7 +220,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From 2a7efd215caf043a423e23af392e0477df750494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 10/26] fix: hasZeroDiag read outside 1-based matrices and
 crashed without values

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 1c5a5e6..4c4c878 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -251,6 +251,10 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values ? this->values - base : NULL;
+
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
@@ -263,7 +267,7 @@ bool CSR::hasZeroDiag() const
     for (int i = iBegin; i < iEnd; ++i) {
       bool hasDiag = false;
       for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
-        if (colidx[j] == i && values[j] != 0) {
+        if (colidx[j] == i && (!values || values[j] != 0)) {
           hasDiag = true;
           break;
         }
-- 
2.43.0


From d7034eeaba2f051f4323300acc2f24db83814e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 11/26] fix: equals crashed when a matrix has no values

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 4c4c878..6f249ba 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -744,6 +744,10 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
     if (print) printf("number of non-zeros differs %d vs. %d\n", rowptr[m], A.rowptr[A.m]);
     return false;
   }
+  if (!values != !A.values) {
+    if (print) printf("only one of the matrices has values\n");
+    return false;
+  }
   for (int i = 0; i < m; ++i) {
     if (rowptr[i] != A.rowptr[i]) {
       if (print) printf("rowptr[%d] differs %d vs. %d\n", i, rowptr[i], A.rowptr[i]);
@@ -754,7 +758,7 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
         if (print) printf("colidx[%d:%d] differs %d vs. %d\n", i, j, colidx[j], A.colidx[j]);
         return false;
       }
-      if (values[j] != A.values[j]) {
+      if (values && values[j] != A.values[j]) {
         if (print) printf("values[%d:%d] differs %g vs. %g\n", i, j, values[j], A.values[j]);
         return false;
       }
-- 
2.43.0


From 4e80f2ea5c7d47d9401dfd17acf379711a785589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 12/26] fix: permuteRowptr let threads without rows write the
 last row pointer concurrently

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..32389fe 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -45,7 +45,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
     int iBegin, iEnd;
     getSimpleThreadPartition(&iBegin, &iEnd, m);
 
-    ret->rowptr[iBegin] = 0;
+    if (iBegin < iEnd) ret->rowptr[iBegin] = 0;
     int i;
     for (i = iBegin; i < iEnd - 1; ++i) {
       int row = inversePerm ? inversePerm[i] : i;
-- 
2.43.0


From 302e353c70eb370afe0b166a604e8d016610798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 13/26] fix: permuteRows read and wrote past the ends of
 1-based matrices

---
 Permute.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 32389fe..3bd77ac 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -380,28 +380,32 @@ static void permuteRowsMain_(
   const T *values = in->values ? in->values - BASE : NULL;
   const T *idiag = in->idiag ? in->idiag - BASE : NULL;
 
+  int *newRowptr = out->rowptr - BASE;
+  int *newDiagptr = out->diagptr ? out->diagptr - BASE : NULL;
+  T *newIdiag = out->idiag ? out->idiag - BASE : NULL;
+
   int m = in->m;
 
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, newRowptr + BASE, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = newRowptr[i] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        newDiagptr[i] =
+          newRowptr[i] + (diagptr[row] - rowptr[row]);
+      if (idiag) newIdiag[i] = idiag[row];
     }
   }
 }
-- 
2.43.0


From 46e65e05fd76a5489395fecc26f04cf504bbe91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 14/26] fix: permuteRowptr must accept the NULL row permutation
 in debug builds

The row permutation is optional, but the assertion dereferenced it.
---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 3bd77ac..ff3aedb 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -34,7 +34,7 @@ namespace SpMP
 
 void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 {
-  assert(isPerm(inversePerm, m));
+  assert(!inversePerm || isPerm(inversePerm, m));
 
   int base = getBase();
 
-- 
2.43.0


From a0f6f35c790d5a4d25f57ee1c244d6a775f81c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 15/26] fix: permuteMain must not copy external values of a
 matrix without values

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index ff3aedb..364e8a6 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -308,7 +308,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
-- 
2.43.0


From ac725c1901666dae2f5b8bc677219052140d06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 16/26] fix: sorting permuteMain must not touch the values of a
 matrix without values

---
 Permute.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 364e8a6..54396c6 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -318,17 +318,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            T v = values ? newValues[j] : 0;
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (values) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (values) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From f76b08189fdbc8e64afe69e355771c0cce86fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 17/26] fix: permuteColsInPlace of a matrix without values went
 through a null pointer

---
 Permute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 54396c6..610f7e8 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        T v = values ? values[j] : 0;
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
-- 
2.43.0


From ddf5ea83de828eac988d3661eddcc03145cb737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 18/26] fix: permuteColsInPlace debug assertions rejected
 1-based and rectangular matrices

---
 Permute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 610f7e8..bb5c769 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -130,9 +130,9 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c - BASE >= 0 && c - BASE < A->n);
       colidx[j] = perm[c - BASE] + BASE;
-      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
+      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < A->n);
       if (c == i) diagCol = perm[c - BASE] + BASE;
     }
 
-- 
2.43.0


From b0f5051e0ee112a8f793ff93e1b6e71be3ffbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 19/26] fix: transposing a matrix without columns left the
 result without row pointers

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 6f249ba..14246e6 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -512,6 +512,8 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0


From 38887b4064c46a1184ab38e49171f9b0446df6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 20/26] fix: splitLU left the U->extptr of a previous split in
 place when the matrix has none

---
 SymGS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..597d2d0 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -21,6 +21,7 @@ void splitLU(CSR& A, CSR *L, CSR *U)
   L->n = U->n = A.n;
 
   const int *extptr = A.extptr ? A.extptr : A.rowptr + 1;
+  L->extptr = U->extptr = NULL; // dealloc keeps arrays not owned, as those of a previous splitLU
   if (A.extptr) {
     U->extptr = MALLOC(int, U->m);
   }
-- 
2.43.0


From bdf32f5a3649e79ec3cbbf1771cddf5f2d89d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 21/26] fix: the 27-point generator counted neighbours along x
 and y with the z extent when that is one

---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..25eca61 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -66,11 +66,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From ec23363881f78271a8fe5f376753f9bd0c296142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:52 +0000
Subject: [PATCH 22/26] fix: storeBin left a 1-based matrix 0-based when the
 file could not be opened

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 14246e6..3496998 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -375,6 +375,9 @@ void CSR::storeBin(const char *fileName)
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
+    if (was1Based) {
+      make1BasedIndexing();
+    }
     return;
   }
 
-- 
2.43.0


From f731eccdee21d66b514dfaa98e51c4a2879dfc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 23/26] fix: loadVectorMatrixMarket wrote before its buffer for
 arrays without columns, and outside it when the number of elements overflows
 int

---
 Vector.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..d036579 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -40,18 +40,24 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  if (*m < 0 || *n < 1) {
+    fprintf(stderr, "Error: invalid array size %d x %d.\n", *m, *n);
+    fclose(fp);
+    return false;
+  }
+
+  *v = MALLOC(double, (size_t)(*m)*(*n));
 
   for (int i = 0; i < *m; i++) {
     for (int j = 0; j < *n - 1; j++) {
-      if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
+      if (fscanf(fp, "%lg", *v + (size_t)i*(*n) + j) != 1) {
         fprintf(stderr, "Error: premature EOF.\n");
         FREE(*v);
         fclose(fp);
         return false;
       }
     }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
+    if (fscanf(fp, "%lg\n", *v + (size_t)i*(*n) + (*n) - 1) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From 614d72945f947bce1cc6c8d7c9501deb34252496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 24/26] fix: loadMatrixMarket wrote beyond its arrays for files
 with more lines than stated or negative coordinates, and accepted
 out-of-range coordinates of zero-based files

---
 COO.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..47311a8 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -214,6 +214,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  if (m < 0 || n < 0 || nnz < 0) {
+    fprintf(stderr, "Error: invalid matrix size %d x %d with %d entries.\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
@@ -264,11 +269,16 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
       return false;
     }
+    if (lines == nnz) {
+      fprintf(stderr, "Error: more lines than nnz (%d) specified in the header of file %s\n", nnz, file);
+      fclose(fp);
+      return false;
+    }
 
     rowidx[count] = x;
     colidx[count] = y;
@@ -293,6 +303,10 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     for (size_t i = 0; i < count; ++i) {
       rowidx[i]++;
       colidx[i]++;
+      if (rowidx[i] > origM || colidx[i] > origN) {
+        fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i] - 1, colidx[i] - 1);
+        return false;
+      }
     }
     if (coo.isSymmetric) {
       for (int i = m; i > 0; --i) {
-- 
2.43.0


From 13231d78f46fd998cfa967ad3ff779fb9c5994e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 25/26] fix: loadMatrixMarket shifted the padding of zero-based
 files one past the matrix

---
 COO.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 47311a8..6a76420 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -290,13 +290,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     if (coo.isSymmetric) rowcnt[x]++;
       // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
-  // padding for vectorization
-  for (int i = min(origM, origN); i < min(m, n); ++i) {
-    rowidx[count] = i + 1;
-    colidx[count] = i + 1;
-    values[count] = 1;
-    ++count;
-  }
   fclose(fp);
 
   if (0 == base) {
@@ -314,6 +307,13 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       }
     } 
   }
+  // padding for vectorization
+  for (int i = min(origM, origN); i < min(m, n); ++i) {
+    rowidx[count] = i + 1;
+    colidx[count] = i + 1;
+    values[count] = 1;
+    ++count;
+  }
 
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
-- 
2.43.0


From 088c33acce0ef6eac7d222f592eb610780a97e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 26/26] fix: loadMatrixMarket of symmetric files searched
 uninitialised columns when zero-based, and left its arrays when not square or
 empty and padded

---
 COO.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 6a76420..80c2d9a 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -230,6 +230,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   size_t count;
   if (force_symmetric || mm_is_symmetric (matcode) == 1) {
+    if (origM != origN) {
+      fprintf(stderr, "Error: a symmetric matrix must be square (%d x %d).\n", origM, origN);
+      fclose(fp);
+      return false;
+    }
     coo.isSymmetric = true;
     count = 2L*nnz;
   }
@@ -250,7 +255,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -305,6 +310,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       for (int i = m; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
+      rowcnt[0] = 0;
     } 
   }
   // padding for vectorization
-- 
2.43.0

