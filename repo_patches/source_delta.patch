From fdb12d65e93f5c3aeb37151f0d29335ff1d04dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 01/11] fix: threads without rows must not read row offsets
 that other threads set

copyValuesToC and the numeric phases of the two-phase drivers read
C.rowptr[rowBeginIdx] even if the thread's row range is empty: that
offset belongs to another thread (or to nobody yet), so the read races
with its initialisation and the address computed from it is garbage.
---
 spgemm-blocks/common.h                  | 2 ++
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 6 ++++--
 spgemm-blocks/masked-spgemm-inner.h     | 6 ++++--
 spgemm-blocks/masked-spgemm.h           | 6 ++++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..4ab3281 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -180,6 +180,8 @@ void setRowOffsets(CSR<IT, NT> &C, IT *threadsNvals, IT rowBeginIdx, IT rowEndId
 
 template<class IT, class NT>
 void copyValuesToC(CSR<IT, NT> &C, IT rowBeginIdx, IT *colIdsLocal, NT *valuesLocal, IT threadNvals) {
+    // A thread without rows must not read the offset of a row that another thread sets
+    if (threadNvals == 0) { return; }
     copy(colIdsLocal, colIdsLocal + threadNvals, C.colids + C.rowptr[rowBeginIdx]);
     copy(valuesLocal, valuesLocal + threadNvals, C.values + C.rowptr[rowBeginIdx]);
 }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..eaa57c0 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -178,8 +178,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // A thread without rows must not read the offset of a row that another thread sets
+        const IT beginOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &C.colids[beginOffset];
+        NT *currValue = &C.values[beginOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..45b4178 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -123,8 +123,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // A thread without rows must not read the offset of a row that another thread sets
+        const IT beginOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &C.colids[beginOffset];
+        NT *currValue = &C.values[beginOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..a986bfa 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -165,8 +165,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // A thread without rows must not read the offset of a row that another thread sets
+        const IT beginOffset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &R.colids[beginOffset];
+        NT *currValue = &R.values[beginOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (rowNvals[row] == 0) { continue; }
             alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowNvals[row]);
-- 
2.43.0


From 5edfa928b7329dc35c1c2bb28f316155c6589709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:20 +0000
Subject: [PATCH 02/11] fix: complemented heap product aborted on an empty mask
 row

An empty mask row is ordinary input for a complemented mask (everything
is kept); MaskedHeapComplemented asserted that it never sees one.
---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From 2ca6b21cbbdf75809309bcaeb15832748024435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 03/11] fix: store the allocation header without assuming the
 alignment of size_t

---
 spgemm-blocks/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spgemm-blocks/util.h b/spgemm-blocks/util.h
index b864f5d..e053487 100644
--- a/spgemm-blocks/util.h
+++ b/spgemm-blocks/util.h
@@ -27,7 +27,8 @@ T *mallocAligned(size_t nelem, size_t alignment = sizeof(T)) {
     shiftSize += (rem != 0) ? (alignment - rem) : 0;
     mem += shiftSize;
 
-    *reinterpret_cast<size_t *>(mem - sizeof(size_t)) = shiftSize;
+    // The header need not be aligned to size_t
+    std::memcpy(mem - sizeof(size_t), &shiftSize, sizeof(size_t));
 
     return reinterpret_cast<T *>(mem);
 };
@@ -35,7 +36,8 @@ T *mallocAligned(size_t nelem, size_t alignment = sizeof(T)) {
 template<class T>
 void freeAligned(T *ptr) {
     auto *mem = reinterpret_cast<std::byte *>(ptr);
-    size_t shiftSize = *reinterpret_cast<size_t *>(mem - sizeof(size_t));
+    size_t shiftSize;
+    std::memcpy(&shiftSize, mem - sizeof(size_t), sizeof(size_t));
     mem -= shiftSize;
     std::free(mem);
 }
-- 
2.43.0


From f4845f68df0cd2c6f35a7e61e9be04a957693a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:19 +0000
Subject: [PATCH 04/11] fix: prefix sums wrote and read outside empty arrays,
 and idle threads raced on the first element

---
 spgemm-blocks/scan.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..1e58688 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,9 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    // A thread without elements must not touch an element that another thread sets
+    if (start == end) { return; }
+
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -33,6 +36,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
 
 template<class T>
 void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+    if (size == 0) { return; }
+
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 17u) || numThreads == 1) {
         dst[0] = src[0];
@@ -71,6 +76,9 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    // A thread without elements must not touch an element that another thread sets
+    if (start == end) { return; }
+
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
@@ -79,6 +87,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
 
 template<class T>
 void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+    if (size == 0) { return; }
+
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 1u) || numThreads == 1) {
         dst[0] = 0;
-- 
2.43.0


From f63bac6fe1680e8ff3444d7f0e5bc97414d06c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:20 +0000
Subject: [PATCH 05/11] fix: the prefix sum read past its input and wrote to
 empty outputs

---
 utility.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utility.h b/utility.h
index 1a6df5f..cde803b 100644
--- a/utility.h
+++ b/utility.h
@@ -169,6 +169,8 @@ inline void my_free(T *a, Ts *...as) {
 
 // Prefix sum (Sequential)
 template <typename T> void seq_scan(T *in, T *out, T N) {
+  if (N <= 0)
+    return;
   out[0] = 0;
   for (T i = 0; i < N - 1; ++i) {
     out[i + 1] = out[i] + in[i];
@@ -197,7 +199,9 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i + 1] = out[i] + in[i];
       }
       // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // (the last input element is part of no sum, and need not exist)
+      if (tid < tnum - 1)
+        partial_sum[tid] = out[end - 1] + in[end - 1];
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From 21124092324152293b364dcacda4f4a72174f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:41 +0000
Subject: [PATCH 06/11] fix: CSR assignment decides by rows, not columns,
 whether there are row offsets to copy

A matrix with rows but no columns kept a freed row-offset pointer after
assignment (double free), and one with columns but no rows was read
through an unset pointer.
---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index a2285b9..0e1a593 100644
--- a/CSR.h
+++ b/CSR.h
@@ -154,7 +154,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
-- 
2.43.0


From 6a4967bdb584c5f4273c953bf76f25f1ef940b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:35 +0000
Subject: [PATCH 07/11] fix: BitMap::get_next_bit keeps the upper half of
 positions beyond 2^32

Rounding down with a 32-bit mask dropped bits 32 and up of the position.
---
 BitMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitMap.h b/BitMap.h
index 1ded809..fb8e150 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -117,7 +117,7 @@ class BitMap {
       temp = 0;
     }
     if (!temp) {
-      next = (next & 0xffffffc0);
+      next = (next & ~static_cast<uint64_t>(0x3f));
       while (!temp) {
         it++;
         if (it >= end)
-- 
2.43.0


From 04d9fd9da7c3f8323d5fe1f5c6aeaa7f0116959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 08/11] fix: inner two-phase multiplication frees an operand
 that is also the output before reading it

---
 spgemm-blocks/masked-spgemm-inner.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 45b4178..03b6179 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -76,6 +76,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     using RowAlg = RowAlgorithm<IT, NT, Complemented>;
 
+    // C may be one of the operands, which the numeric phase still reads
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -117,16 +120,16 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
         // A thread without rows must not read the offset of a row that another thread sets
-        const IT beginOffset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
-        IT *currColId = &C.colids[beginOffset];
-        NT *currValue = &C.values[beginOffset];
+        const IT beginOffset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &R.colids[beginOffset];
+        NT *currValue = &R.values[beginOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -140,6 +143,18 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
-- 
2.43.0


From 8af718be7ecb24acea0f010eacf99dd389cc68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:49 +0000
Subject: [PATCH 09/11] fix: hash accumulator releases its buffer with too
 small a dirty size

The table starts at the first multiple of the entry size after the dirty memory, so with an unrounded
dirty size the last bytes of the table lay beyond the dirty size that was returned.
---
 spgemm-blocks/hash/HashAccumulator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spgemm-blocks/hash/HashAccumulator.h b/spgemm-blocks/hash/HashAccumulator.h
index 131dca8..e96b38f 100644
--- a/spgemm-blocks/hash/HashAccumulator.h
+++ b/spgemm-blocks/hash/HashAccumulator.h
@@ -80,7 +80,8 @@ public:
         _size = 0;
         _mask = 0;
 #endif
-        return _dirty + _maxSize * sizeof(EntryT);
+        // The table starts at the first multiple of the entry size after the dirty memory (see splitMemory)
+        return _maxSize ? roundUp<sizeof(EntryT)>(_dirty) + _maxSize * sizeof(EntryT) : _dirty;
     }
 
     void resize(T size) {
-- 
2.43.0


From c73ab53932ca7adc837e7523fa8d5deecd01ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 10/11] fix: transposing a CSC matrix without columns read its
 unset column offsets

---
 CSR.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 0e1a593..f99a064 100644
--- a/CSR.h
+++ b/CSR.h
@@ -230,7 +230,8 @@ CSR<IT, NT>::CSR(const CSC<IT, NT> &csc, const bool transpose)
     colids = my_malloc<IT>(nnz);
     values = my_malloc<NT>(nnz);
 
-    for (IT k = 0; k < rows + 1; ++k) {
+    // a matrix without columns has no column offsets
+    for (IT k = 0; rows > 0 && k < rows + 1; ++k) {
       rowptr[k] = csc.colptr[k];
     }
     for (IT k = 0; k < nnz; ++k) {
-- 
2.43.0


From b47b76b9f3288b550804a3d117da3525a594b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:13 +0000
Subject: [PATCH 11/11] fix: csr2csc_atomic_nosort read and wrote one position
 beyond its column arrays

---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0

