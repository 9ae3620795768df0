From 16caa8e0876ceda8fb898e5bf93c0eacf6fa2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:14 +0000
Subject: [PATCH 01/17] fix: SSE/AVX SaturatingRoundingDoublingHighMul must
 saturate INT_MIN*INT_MIN to INT_MAX

---
 fixedpoint/fixedpoint_avx.h | 4 +++-
 fixedpoint/fixedpoint_sse.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..14c8a63 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -348,7 +348,9 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
                               a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask,
+      _mm256_set1_epi32(std::numeric_limits<std::int32_t>::max()), result);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..ed39ffd 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -352,7 +352,9 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
                            a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask,
+      _mm_set1_epi32(std::numeric_limits<std::int32_t>::max()), result);
 }
 
 template <>
-- 
2.43.0


From 4917d571c9067751b776b8fce80121b3c89af45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:13 +0000
Subject: [PATCH 02/17] fix: tanh output stage wrapped to -amplitude just below
 the upper cutoff on SIMD back ends

---
 internal/output.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/output.h b/internal/output.h
index 92bf7b9..6a727a8 100644
--- a/internal/output.h
+++ b/internal/output.h
@@ -405,9 +405,14 @@ struct OutputStageEvalBufferImpl<OutputStageTanh,
           Sub(input.reg[i], Dup<DataType>(real_zero_as_int32));
       F3 fixedpoint_input =
           F3::FromRaw(input_centered) * inverse_amplitude_normalized;
-      // left shift
-      fixedpoint_input.raw() = ShiftLeft(fixedpoint_input.raw(),
-                                         28 - inverse_amplitude_neg_exponent);
+      // left shift. Rounding may have brought an input just below the upper
+      // cutoff up to 8.0, which F3 cannot represent and which would wrap around.
+      const int left_shift = 28 - inverse_amplitude_neg_exponent;
+      fixedpoint_input.raw() = ShiftLeft(
+          Min(fixedpoint_input.raw(),
+              Dup<DataType>(std::numeric_limits<std::int32_t>::max() >>
+                            left_shift)),
+          left_shift);
       // fixed-point tanh and multiplication
       F0 fixedpoint_output = tanh(fixedpoint_input) * amplitude_normalized;
       // right shift
-- 
2.43.0


From bc7b969a3c3d6e0b22f286846b5ee19002f82054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:54 +0000
Subject: [PATCH 03/17] fix: row partition of MultiThreadGemm overflowed int
 for very many rows

---
 internal/multi_thread_gemm.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 97183e7..036910f 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -694,8 +694,11 @@ void MultiThreadGemm(GemmContextType* context, const KernelBase& kernel,
     int next_start_row = 0;
     for (int n = 0; n < task_count; ++n) {
       int start_row = next_start_row;
+      // The product below may not fit in an int.
+      const int unrounded_next_start_row = static_cast<int>(
+          static_cast<std::int64_t>(rows) * (n + 1) / task_count);
       next_start_row = std::min(
-          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));
+          rows, RoundUp<KernelFormat::kRows>(unrounded_next_start_row));
 
       int block_rows = next_start_row - start_row;
       auto lhs_block = lhs.block(start_row, 0, block_rows, depth);
-- 
2.43.0


From 60f9eccb90390c062f7c27fe4609ef8f128ed2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:43 +0000
Subject: [PATCH 04/17] fix: RoundUpToPowerOfTwo did not return a power of two
 for 64-bit arguments above 2^32

---
 internal/common.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/common.h b/internal/common.h
index 708cc40..8965a1c 100644
--- a/internal/common.h
+++ b/internal/common.h
@@ -160,6 +160,7 @@ Integer RoundUpToPowerOfTwo(Integer n) {
   i |= i >> 4;
   i |= i >> 8;
   i |= i >> 16;
+  i |= i >> (sizeof(Integer) > 4 ? 32 : 0);  // for 64-bit Integer types
   return i + 1;
 }
 
-- 
2.43.0


From 8a7cac1dff95f1b80d390aa400764632c123385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 05/17] fix: All() and Any() (and FixedPoint ==) ignored their
 argument on SSE/AVX

---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index 14c8a63..27fb285 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -257,22 +257,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index ed39ffd..caee37f 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi32(-1));
 }
 
 template <>
-- 
2.43.0


From 5da4c49a593626c0737ef0b904e360fe9f568e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 06/17] fix: scalar ShiftLeft by 31 multiplied by -2^31

---
 fixedpoint/fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index 56e95c0..a9c34f3 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -125,7 +125,7 @@ tIntegerType Neg(tIntegerType a) {
 template <typename tIntegerType, typename OffsetType>
 tIntegerType ShiftLeft(tIntegerType a, OffsetType offset) {
   const std::int64_t wide_a = static_cast<std::int64_t>(a);
-  const std::int64_t wide_shifted = wide_a * (1 << offset);
+  const std::int64_t wide_shifted = wide_a * (1ll << offset);
   const auto min = std::numeric_limits<tIntegerType>::min();
   const auto max = std::numeric_limits<tIntegerType>::max();
   return wide_shifted < min
-- 
2.43.0


From 44e653d252cdfd88409b4cc1c64c8b0646e6bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 07/17] fix: scalar RoundingHalfSum rounded ties of negative
 sums differently from VRHADD and the SIMD versions

---
 fixedpoint/fixedpoint.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index a9c34f3..ea4659d 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -238,8 +238,7 @@ inline std::int32_t RoundingHalfSum(std::int32_t a, std::int32_t b) {
   std::int64_t a64 = a;
   std::int64_t b64 = b;
   std::int64_t sum = a64 + b64;
-  std::int64_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int32_t>((sum + sign) / 2);
+  return static_cast<std::int32_t>((sum + 1) >> 1);
 }
 
 template <>
@@ -247,8 +246,7 @@ inline std::int16_t RoundingHalfSum(std::int16_t a, std::int16_t b) {
   std::int32_t a32 = a;
   std::int32_t b32 = b;
   std::int32_t sum = a32 + b32;
-  std::int32_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int16_t>((sum + sign) / 2);
+  return static_cast<std::int16_t>((sum + 1) >> 1);
 }
 
 template <typename IntegerType>
-- 
2.43.0


From a062b59a2db3159732b2779f62da3d8277c0cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:54 +0000
Subject: [PATCH 08/17] fix: AVX2 32-bit SelectUsingMask looked only at the
 mask's sign bits instead of selecting bit by bit

---
 fixedpoint/fixedpoint_avx.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index 27fb285..bba28ea 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -152,9 +152,8 @@ inline int16x16_m256i ShiftRight(int16x16_m256i a, int offset) {
 template <>
 inline __m256i SelectUsingMask(__m256i if_mask, __m256i then_val,
                                __m256i else_val) {
-  return _mm256_castps_si256(_mm256_blendv_ps(_mm256_castsi256_ps(else_val),
-                                              _mm256_castsi256_ps(then_val),
-                                              _mm256_castsi256_ps(if_mask)));
+  return _mm256_or_si256(_mm256_and_si256(if_mask, then_val),
+                         _mm256_andnot_si256(if_mask, else_val));
 }
 
 template <>
-- 
2.43.0


From 7079493a86608e8b6474361f76b3e11ee444ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:44 +0000
Subject: [PATCH 09/17] fix: meta fast path treated strided vectors as packed
 in EightBitIntGemm

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..dc2a500 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -192,8 +192,8 @@ bool IsRowMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one row vector? (a vector is both row and column major)
-  if (rows == 1) {
+  // Is it a one row vector? (a packed vector is both row and column major)
+  if (rows == 1 && (transpose || stride == 1)) {
     return true;
   }
 
@@ -206,8 +206,8 @@ bool IsColumnMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one column vector? (a vector is both row and column major)
-  if (cols == 1) {
+  // Is it a one column vector? (a packed vector is both row and column major)
+  if (cols == 1 && (!transpose || stride == 1)) {
     return true;
   }
 
-- 
2.43.0


From 04cbe032a7c45cfcb70a9f353ae9896a91df47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:41 +0000
Subject: [PATCH 10/17] fix: meta quantized GEMM/GEMV computed the rounding
 offset as 1 << -1 for a zero shift

---
 meta/legacy_single_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_single_thread_gemm.h b/meta/legacy_single_thread_gemm.h
index d662e47..8101d3c 100644
--- a/meta/legacy_single_thread_gemm.h
+++ b/meta/legacy_single_thread_gemm.h
@@ -63,7 +63,8 @@ void gemm_q8_strided(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      (shift > 0) ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = result_stride;
@@ -107,7 +108,8 @@ void gemv_q8(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      (shift > 0) ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = n;
-- 
2.43.0


From 4ad6677d8eba6cafdf53c0608267a31371f83568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 11/17] fix: meta cache-friendly executors could pack more
 chunks than the scratch they asked for holds

---
 meta/single_thread_gemm.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/meta/single_thread_gemm.h b/meta/single_thread_gemm.h
index 258de69..8fb6673 100644
--- a/meta/single_thread_gemm.h
+++ b/meta/single_thread_gemm.h
@@ -413,6 +413,14 @@ inline int CalculateCacheFriendlyTasksCount(int cache_size, int constant_memory,
   return (chunks_count + available_chunks - 1) / available_chunks;
 }
 
+// Every task but the last gets the same number of whole chunks, so that no task
+// packs more chunks than CalculateCacheFriendlyTasksCount made room for.
+inline int CalculateCacheFriendlyTaskDim(int tasks_count, int total_dim,
+                                         int chunk_dim) {
+  const int chunks_count = (total_dim + chunk_dim - 1) / chunk_dim;
+  return chunk_dim * ((chunks_count + tasks_count - 1) / tasks_count);
+}
+
 template <typename Params>
 inline void UpdateCacheFriendlyTask(int m_offset, int m, int n_offset, int n,
                                     const Params& params, Params* task_params) {
@@ -467,7 +475,8 @@ class GemmExecutorPackRHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.n / cache_friendly_tasks_count;
+    const int cache_friendly_dim = internal::CalculateCacheFriendlyTaskDim(
+        cache_friendly_tasks_count, params.n, n);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
@@ -516,7 +525,8 @@ class GemmExecutorPackLHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.m / cache_friendly_tasks_count;
+    const int cache_friendly_dim = internal::CalculateCacheFriendlyTaskDim(
+        cache_friendly_tasks_count, params.m, m);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
-- 
2.43.0


From 08081257bfdff0a373bf410cfd0d0414541aa14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:37 +0000
Subject: [PATCH 12/17] fix: the last chunk of the legacy meta GEMM could be
 twice the size its scratch memory is meant for

---
 meta/legacy_multi_thread_gemm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_gemm.h b/meta/legacy_multi_thread_gemm.h
index a1e48c3..c136f11 100644
--- a/meta/legacy_multi_thread_gemm.h
+++ b/meta/legacy_multi_thread_gemm.h
@@ -39,7 +39,7 @@ void CacheFriendlyMatrixMatrix(std::uint8_t* scratch, const IN_TYPE* lhs,
   if (rhs_size > kMaxCacheFriendlySize) {
     const std::int32_t optimal_n =
         std::max(1, 4 * (kMaxCacheFriendlySize / (k * 4)));
-    const std::int32_t chunks_count_less_one = n / optimal_n - 1;
+    const std::int32_t chunks_count_less_one = (n - 1) / optimal_n;
     const std::int32_t chunk_size = optimal_n * k;
     for (int i = 0; i < chunks_count_less_one; ++i) {
       operation.ExecuteCacheFriendlyMatrixMatrix(
-- 
2.43.0


From 5142f72113ebba1be0bc4f4a4fc9cfb588baae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 13/17] fix: legacy meta tasks referred to a finished lambda's
 copy of the operation

---
 meta/legacy_multi_thread_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_common.h b/meta/legacy_multi_thread_common.h
index d4cec6f..65a2003 100644
--- a/meta/legacy_multi_thread_common.h
+++ b/meta/legacy_multi_thread_common.h
@@ -135,7 +135,7 @@ void MultiThreadedMatrixMatrix(gemmlowp::WorkersPool* pool,
   std::vector<Task*> tasks;
   std::for_each(
       task_rects.begin(), task_rects.end(),
-      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, operation,
+      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, &operation,
        scratch_per_thread](internal::TaskRect& rect) {
         tasks.push_back(new internal::MetaTask<IN_TYPE, OUT_TYPE, F>(
             task_scratch, lhs, rhs, rect, k, result, result_stride, operation));
-- 
2.43.0


From bbe10c42b0f5d9733fdf8322d49832e782fb71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:40 +0000
Subject: [PATCH 14/17] fix: an exiting thread's profiling stack was freed
 while the profiler could still sample it

---
 profiling/instrumentation.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/profiling/instrumentation.h b/profiling/instrumentation.h
index c1f852e..8f444e3 100644
--- a/profiling/instrumentation.h
+++ b/profiling/instrumentation.h
@@ -159,19 +159,15 @@ inline std::set<ThreadInfo*>& ThreadsUnderProfiling() {
 }
 
 struct ThreadInfo {
-  pthread_key_t key;  // used only to get a callback at thread exit.
   ProfilingStack stack;
 
-  ThreadInfo() {
-    pthread_key_create(&key, ThreadExitCallback);
-    pthread_setspecific(key, this);
-    stack.lock = new Mutex();
-  }
+  ThreadInfo() { stack.lock = new Mutex(); }
 
-  static void ThreadExitCallback(void* ptr) {
+  // Called at thread exit (see ThreadLocalThreadInfo). The profiler must not
+  // see this thread anymore once its stack is gone.
+  ~ThreadInfo() {
     ScopedLock sl(GlobalMutexes::Profiler());
-    ThreadInfo* self = static_cast<ThreadInfo*>(ptr);
-    ThreadsUnderProfiling().erase(self);
+    ThreadsUnderProfiling().erase(this);
   }
 };
 
-- 
2.43.0


From 80599de45876c6f4122e4a6199a8402ad51a35cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:40 +0000
Subject: [PATCH 15/17] fix: data race on the flag that tells the profiler
 thread to finish

---
 profiling/profiler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.h b/profiling/profiler.h
index 018da57..8d8c89d 100644
--- a/profiling/profiler.h
+++ b/profiling/profiler.h
@@ -147,6 +147,7 @@
 #error Profiling is not enabled!
 #endif
 
+#include <atomic>
 #include <vector>
 
 #include "instrumentation.h"
@@ -282,8 +283,8 @@ inline bool& IsProfiling() {
 }
 
 // This is how we tell the profiler thread to finish.
-inline bool& ProfilerThreadShouldFinish() {
-  static bool b;
+inline std::atomic<bool>& ProfilerThreadShouldFinish() {
+  static std::atomic<bool> b(false);
   return b;
 }
 
-- 
2.43.0


From 6ef337caf174f2d826a2df7aa83820ecc592997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 16/17] fix: data race printing the number of profiled threads

---
 profiling/profiler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.h b/profiling/profiler.h
index 8d8c89d..3917113 100644
--- a/profiling/profiler.h
+++ b/profiling/profiler.h
@@ -248,9 +248,13 @@ class ProfileTreeView {
   }
 
   void Print() const {
+    int threads_count = 0;
+    {
+      ScopedLock sl(GlobalMutexes::Profiler());
+      threads_count = static_cast<int>(ThreadsUnderProfiling().size());
+    }
     printf("\n");
-    printf("gemmlowp profile (%d threads, %d samples)\n",
-           static_cast<int>(ThreadsUnderProfiling().size()),
+    printf("gemmlowp profile (%d threads, %d samples)\n", threads_count,
            static_cast<int>(root_.weight));
     PrintNode(&root_, 0);
     printf("\n");
-- 
2.43.0


From 236e1d67a5026774ed496771ddd026ce4a276938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 17/17] fix: reference kernel multiplies operands as the
 format's scalar type

ReferenceKernel documents that it accepts any format, but read the packed
bytes as unsigned even when the format's Scalar is int8, giving wrong products
for formats built from KernelSideFormatInt8.
---
 internal/kernel_reference.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/kernel_reference.h b/internal/kernel_reference.h
index 3458c6a..dbf3964 100644
--- a/internal/kernel_reference.h
+++ b/internal/kernel_reference.h
@@ -83,7 +83,10 @@ struct ReferenceKernel : KernelBase {
                     accumulator + (ri + rc * Format::Lhs::Cell::kWidth) +
                     (ci + cc * Format::Rhs::Cell::kWidth) * Format::kRows;
                 *accumulator_coeff_ptr +=
-                    std::int32_t(*lhs_coeff_ptr) * std::int32_t(*rhs_coeff_ptr);
+                    std::int32_t(
+                        static_cast<typename Format::Lhs::Scalar>(*lhs_coeff_ptr)) *
+                    std::int32_t(
+                        static_cast<typename Format::Rhs::Scalar>(*rhs_coeff_ptr));
               }
             }
           }
-- 
2.43.0

