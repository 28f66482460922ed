From cf8c794af49d57528f73a86d3c5d22937d83b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:44 +0000
Subject: [PATCH 1/8] fix: complemented heap algorithm aborts on an empty mask
 row

The complement of an empty mask row is the whole row, and both phases
already handle maskIdx == maskEnd; the asserts rejected that valid input.
---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From 528ef135ad1043843a74c267d17c8781d76d21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 2/8] fix: threads without rows race on the result's row
 pointers

---
 spgemm-blocks/common.h              | 2 ++
 spgemm-blocks/masked-spgemm-inner.h | 6 ++++--
 spgemm-blocks/masked-spgemm.h       | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..1910fdc 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -180,6 +180,8 @@ void setRowOffsets(CSR<IT, NT> &C, IT *threadsNvals, IT rowBeginIdx, IT rowEndId
 
 template<class IT, class NT>
 void copyValuesToC(CSR<IT, NT> &C, IT rowBeginIdx, IT *colIdsLocal, NT *valuesLocal, IT threadNvals) {
+    // A thread without entries must not read rowptr[rowBeginIdx]: it may belong to another thread
+    if (threadNvals == 0) { return; }
     copy(colIdsLocal, colIdsLocal + threadNvals, C.colids + C.rowptr[rowBeginIdx]);
     copy(valuesLocal, valuesLocal + threadNvals, C.values + C.rowptr[rowBeginIdx]);
 }
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..297dbb0 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -123,8 +123,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // A thread without rows must not read rowptr[rowBeginIdx]: it belongs to another thread
+        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = C.colids + rowPtrOffset;
+        NT *currValue = C.values + rowPtrOffset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..bc27ddf 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -165,8 +165,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // A thread without rows must not read rowptr[rowBeginIdx]: it belongs to another thread
+        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = R.colids + rowPtrOffset;
+        NT *currValue = R.values + rowPtrOffset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (rowNvals[row] == 0) { continue; }
             alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowNvals[row]);
-- 
2.43.0


From 8759f71b395432baaa169e6ed2cb7d909de498e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 3/8] fix: same race in the manually inlined inner product

---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..3d6d5cf 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -178,8 +178,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // A thread without rows must not read rowptr[rowBeginIdx]: it belongs to another thread
+        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = C.colids + rowPtrOffset;
+        NT *currValue = C.values + rowPtrOffset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
-- 
2.43.0


From ba5c899af95f3d7ec7dca59ece1e3a145ffae321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 4/8] fix: two-phase inner product reads A and M after
 overwriting C when they are the same matrix

---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 25 ++++++++++++++++++++-----
 spgemm-blocks/masked-spgemm-inner.h     | 25 ++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 3d6d5cf..4bb8e18 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -109,6 +109,9 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 template<class IT, class NT, class MultiplyOperation, class AddOperation>
 void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
+    // C may be A or M: they are needed until the end of the numeric phase
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -172,16 +175,16 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
         // A thread without rows must not read rowptr[rowBeginIdx]: it belongs to another thread
-        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
-        IT *currColId = C.colids + rowPtrOffset;
-        NT *currValue = C.values + rowPtrOffset;
+        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = R.colids + rowPtrOffset;
+        NT *currValue = R.values + rowPtrOffset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -228,6 +231,18 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 297dbb0..d22821e 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -76,6 +76,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     using RowAlg = RowAlgorithm<IT, NT, Complemented>;
 
+    // C may be A or M: they are needed until the end of the numeric phase
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -117,16 +120,16 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
         // A thread without rows must not read rowptr[rowBeginIdx]: it belongs to another thread
-        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
-        IT *currColId = C.colids + rowPtrOffset;
-        NT *currValue = C.values + rowPtrOffset;
+        const IT rowPtrOffset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = R.colids + rowPtrOffset;
+        NT *currValue = R.values + rowPtrOffset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -140,6 +143,18 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
-- 
2.43.0


From f5e4bda4008adbddcc4b5e6b86350e784295c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 5/8] fix: prefix sums write an element that does not exist or
 belongs to another thread

---
 spgemm-blocks/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..6b6dd70 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,7 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -35,6 +36,7 @@ template<class T>
 void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 17u) || numThreads == 1) {
+        if (size == 0) { return; }
         dst[0] = src[0];
         for (size_t i = 1; i < size; ++i) {
             dst[i] = dst[i - 1] + src[i];
@@ -71,6 +73,7 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
@@ -81,6 +84,7 @@ template<class T>
 void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 1u) || numThreads == 1) {
+        if (size == 0) { return; }
         dst[0] = 0;
         for (size_t i = 1; i < size; ++i) {
             dst[i] = dst[i - 1] + src[i - 1];
-- 
2.43.0


From 4dfc89348e5fa786594730ca55f5bad1b8a26f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 6/8] fix: work is lost when the runtime grants fewer threads
 than requested

---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h |  2 ++
 spgemm-blocks/masked-spgemm-inner.h     |  2 ++
 spgemm-blocks/masked-spgemm-poly.h      |  1 +
 spgemm-blocks/masked-spgemm.h           |  2 ++
 spgemm-blocks/scan.h                    | 10 ++++++----
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 4bb8e18..aa3e784 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -36,6 +36,7 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
@@ -131,6 +132,7 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index d22821e..ea71aac 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -32,6 +32,7 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
         RowAlg alg;
 
         // Distribute work
@@ -98,6 +99,7 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
         RowAlg alg;
 
         // Distribute work
diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..5f5a73c 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -24,6 +24,7 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index bc27ddf..097f7ba 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -40,6 +40,7 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
@@ -122,6 +123,7 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        const int numThreads = omp_get_num_threads(); // may be fewer than requested
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index 6b6dd70..0c3a1cc 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -46,9 +46,10 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
 
     T *partialSums = my_malloc<T>(numThreads, false);
 
-#pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
+#pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, partialSums)
     {
-        inclusiveScan(src, size, dst, numThreads, partialSums);
+        // the team may have fewer threads than requested
+        inclusiveScan(src, size, dst, omp_get_num_threads(), partialSums);
     };
 
     my_free(partialSums);
@@ -94,9 +95,10 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
 
     T *partialSums = my_malloc<T>(numThreads, false);
 
-#pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
+#pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, partialSums)
     {
-        exclusiveScan(src, size, dst, numThreads, partialSums);
+        // the team may have fewer threads than requested
+        exclusiveScan(src, size, dst, omp_get_num_threads(), partialSums);
     };
 
     my_free(partialSums);
-- 
2.43.0


From 8fd180855bca233cff743673c7108515aa0da49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 7/8] fix: row-adaptive product never records the sizes of
 computed rows

---
 spgemm-blocks/masked-spgemm-poly.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 5f5a73c..4d0c0a6 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -73,11 +73,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
-- 
2.43.0


From c7e1996a20ec19fa79a800dfba59768df3c69cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 8/8] fix: arrays of matrices without entries, rows or columns
 are leaked or freed twice

---
 CSC.h                                   | 33 +++++++++------------
 CSR.h                                   | 38 +++++++++----------------
 spgemm-blocks/inner/MaskedInnerSpGEMM.h |  3 ++
 spgemm-blocks/masked-spgemm-inner.h     |  3 ++
 spgemm-blocks/masked-spgemm.h           |  3 ++
 5 files changed, 36 insertions(+), 44 deletions(-)

diff --git a/CSC.h b/CSC.h
index 466ae0f..e71e5a8 100644
--- a/CSC.h
+++ b/CSC.h
@@ -47,15 +47,15 @@ public:
   CSC(IT scale, IT r_scale, IT r_edgefactor); // for tall-skiny matrix
 
   void make_empty() {
-    if (nnz > 0) {
-      my_free<IT>(rowids);
-      my_free<NT>(values);
-      nnz = 0;
-    }
-    if (cols > 0) {
-      my_free<IT>(colptr);
-      cols = 0;
-    }
+    // arrays may exist even if there are no nonzeros or columns
+    my_free<IT>(rowids);
+    my_free<NT>(values);
+    my_free<IT>(colptr);
+    rowids = NULL;
+    values = NULL;
+    colptr = NULL;
+    nnz = 0;
+    cols = 0;
     rows = 0;
   }
 
@@ -95,9 +95,9 @@ public:
   IT nnz;       // number of nonzeros
   IT totalcols; // for the parallel case
 
-  IT *colptr;
-  IT *rowids;
-  NT *values;
+  IT *colptr = NULL;
+  IT *rowids = NULL;
+  NT *values = NULL;
 };
 
 // copy constructor
@@ -121,14 +121,7 @@ CSC<IT, NT> &CSC<IT, NT>::
 operator=(const CSC<IT, NT> &rhs) // ridefinisce operatore = di assegnazione
 {
   if (this != &rhs) {
-    if (nnz > 0) // if the existing object is not empty
-    {
-      my_free<IT>(rowids);
-      my_free<NT>(values);
-    }
-    if (cols > 0) {
-      my_free<IT>(colptr);
-    }
+    make_empty();
 
     nnz = rhs.nnz;
     rows = rhs.rows;
diff --git a/CSR.h b/CSR.h
index a2285b9..388e75b 100644
--- a/CSR.h
+++ b/CSR.h
@@ -50,18 +50,15 @@ public:
   void sortIds();    // Permutating column indices in ascending order
 
   void make_empty() {
-    if (nnz > 0) {
-		if (colids != NULL)
-      		my_free<IT>(colids);
-		if (values != NULL)
-			my_free<NT>(values);
-      nnz = 0;
-    }
-    if (rows > 0) {
-		if (rowptr != NULL)
-			my_free<IT>(rowptr);
-      rows = 0;
-    }
+    // arrays may exist even if there are no nonzeros or rows
+    my_free<IT>(colids);
+    my_free<NT>(values);
+    my_free<IT>(rowptr);
+    colids = NULL;
+    values = NULL;
+    rowptr = NULL;
+    nnz = 0;
+    rows = 0;
     cols = 0;
   }
 
@@ -109,9 +106,9 @@ public:
   IT cols;
   IT nnz; // number of nonzeros
 
-  IT *rowptr;
-  IT *colids;
-  NT *values;
+  IT *rowptr = NULL;
+  IT *colids = NULL;
+  NT *values = NULL;
   bool zerobased;
 };
 
@@ -134,14 +131,7 @@ CSR<IT, NT>::CSR(const CSR<IT, NT> &rhs)
 template <class IT, class NT>
 CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
   if (this != &rhs) {
-    if (nnz > 0) // if the existing object is not empty
-    {
-      my_free<IT>(colids);
-      my_free<NT>(values);
-    }
-    if (rows > 0) {
-      my_free<IT>(rowptr);
-    }
+    make_empty();
 
     nnz = rhs.nnz;
     rows = rhs.rows;
@@ -154,7 +144,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index aa3e784..9eb1d69 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -245,6 +245,9 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     R.rows = 0;
     R.cols = 0;
     R.nnz = 0;
+    R.rowptr = NULL;
+    R.colids = NULL;
+    R.values = NULL;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index ea71aac..2fdedfd 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -157,6 +157,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     R.rows = 0;
     R.cols = 0;
     R.nnz = 0;
+    R.rowptr = NULL;
+    R.colids = NULL;
+    R.values = NULL;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 097f7ba..20920ea 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -194,6 +194,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     R.rows = 0;
     R.cols = 0;
     R.nnz = 0;
+    R.rowptr = NULL;
+    R.colids = NULL;
+    R.values = NULL;
 }
 
 #endif //SPGEMM_GENERIC_H
-- 
2.43.0

