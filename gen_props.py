#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","GEMM accumulators equal the exact offset-adjusted integer matrix product",
 "With an empty (raw int32) output pipeline, every entry (r,c) of the result equals sum over k of (lhs(r,k)+lhs_offset(r))*(rhs(k,c)+rhs_offset(c)) exactly, whenever that fits in 32 bits. This holds for every rows/cols/depth, every combination of row-/column-major operands and result, every stride, scalar or per-row/per-column offsets, every operand value allowed by the bit-depth setting, and every SIMD back end, as long as sizes and element offsets fit in an int.",
 ["inputs","configurations"],"all shapes >=1, all 8 storage-order combinations, all strides >= the packed one, all operand values in the declared range, all offsets, bit-depth settings, thread counts, and target architectures (portable, SSE4.1, AVX2, NEON32, NEON64)",
 "test.cc compares with statistical tolerances on a few shapes with contiguous random operands after 8-bit down-scaling, so a wrong accumulator that rounds away, a stride bug or a value-dependent kernel error (e.g. saturation on extreme operands) is invisible.",
 ["public/gemmlowp.h","internal/single_thread_gemm.h","internal/multi_thread_gemm.h","internal/dispatch_gemm_shape.h","internal/pack.h","internal/pack_neon.h","internal/pack_sse.h","internal/pack_avx.h","internal/compute.h","internal/unpack.h","internal/kernel_reference.h","internal/kernel_sse.h","internal/kernel_avx.h","internal/kernel_neon.h","internal/kernel_default.h"],
 [("packing with per-slice sums","internal/pack.h PackSideBlockImpl"),("kernel accumulation","internal/compute.h ComputeImpl"),("rank-one offset correction","internal/unpack.h UnpackResult"),("transposition of wide products","internal/dispatch_gemm_shape.h")],
 [("packed blocks and slice sums","the operands re-laid-out for the kernel, with the sums the offset correction needs","internal/pack.h")],
 ["GemmWithOutputPipeline / GemmWithOutputPipelinePC result buffer"])

p("C02","Output pipeline stages compute their documented integer functions, in order",
 "Each result entry equals the left-to-right composition of the requested output stages applied to that entry's exact int32 accumulator, where every stage is the documented integer function (bias addition by its row/column, the quantize-down variants with exact rounding shifts and saturating fixed-point multiply, clamp, saturating casts to uint8/int8/int16, truncating cast, tanh). Per-channel parameters are taken from the entry's own row or column, and the result does not depend on where the entry falls in the kernel's register blocks.",
 ["inputs","configurations"],"all accumulator values, all stage parameters in their documented ranges, all pipelines of stages, all positions (row, col) in results of any shape and storage order, all back ends",
 "The tests exercise one or two parameter choices per stage, mostly with random accumulators in the middle of the range, and never check rounding ties, saturation edges and per-channel indices for all register-block shapes.",
 ["public/output_stages.h","internal/output.h","internal/output_neon.h","internal/output_sse.h","internal/output_avx.h","internal/simd_wrappers.h","internal/unpack.h","fixedpoint/fixedpoint.h","doc/output.md"],
 [("OutputPipelineExecutor","internal/output.h"),("OutputStageEvalImpl per stage","internal/output.h"),("register-block saturating casts and stores","internal/output_sse.h, internal/output_neon.h")],
 [("stage parameters","offset/multiplier/shift/clamp/bias, scalar or per channel","public/output_stages.h")],
 ["result buffer of GemmWithOutputPipeline"])

p("C03","Results do not depend on thread count, cache tuning or context history",
 "Calling GEMM with the same operands and pipeline always yields bit-identical results whatever the context's maximum thread count, L1/L2 cache-size settings and RHS cache factor, and whatever sequence of other GEMM calls and setting changes the same context went through before. Using a fresh context is indistinguishable from reusing an old one.",
 ["histories","configurations","inputs"],"all sequences of GEMM calls and setting changes on one context, all cache/thread settings, all shapes",
 "Tests use fixed cache parameters and practically one history per context; results computed under different settings are never compared bit for bit.",
 ["internal/multi_thread_gemm.h","internal/single_thread_gemm.h","internal/block_params.h","internal/allocator.h","internal/dispatch_gemm_shape.h"],
 [("block loops over L2/L1 blocks","internal/single_thread_gemm.h, internal/compute.h"),("persistent allocator and workers","internal/allocator.h, internal/multi_thread_gemm.h")],
 [("GemmContext","max_num_threads, l1/l2 bytes, l2_rhs_factor, allocator, workers pool","internal/multi_thread_gemm.h")],
 ["result buffers across a history of calls"])

p("C04","A GEMM call reads only its operands and writes exactly its result entries",
 "A GEMM call never reads outside the memory spanned by the operand and per-channel parameter views it is given, never writes to its inputs, and writes each addressed entry of the result and nothing else: padding between strides and memory before and after the result keep their contents. With zero rows or columns nothing is written.",
 ["inputs","configurations"],"all shapes, storage orders, strides and alignments of operands and results, all pipelines and destination types, all thread counts, all back ends",
 "Tests allocate operands inside larger heap buffers and never look at padding or at memory around the views; over-reads and over-writes go unnoticed.",
 ["internal/pack.h","internal/pack_neon.h","internal/pack_sse.h","internal/pack_avx.h","internal/unpack.h","internal/output_sse.h","internal/output_neon.h","internal/single_thread_gemm.h","internal/multi_thread_gemm.h","internal/dispatch_gemm_shape.h","public/map.h"],
 [("incomplete-source padding copies","internal/pack.h PackingRegisterBlockBase::MakeCompleteSrc"),("edge handling by small register blocks","internal/unpack.h UnpackResult")],
 (),["operand and result memory, page protections around them"])

p("C05","Worker pool runs every task exactly once before Execute returns, in any schedule",
 "For every history of Execute calls (any task counts, growing or shrinking) on one pool and every interleaving of its threads, including late wake-ups and passive waits: each submitted task runs exactly once, Execute returns, and it returns only after every submitted task has finished. Destroying the pool always terminates, with every thread the pool created having exited.",
 ["schedules","histories"],"all interleavings of caller and worker threads at synchronisation operations, all sequences of Execute calls with 1..N tasks, busy-waiting ending at any point, spurious wake-ups",
 "Tests run the free-running OS schedule in which the busy-wait almost always succeeds; the passive-wait path, lost wake-ups, and stale-state windows need specific interleavings.",
 ["internal/multi_thread_gemm.h"],
 [("state handshake","internal/multi_thread_gemm.h Worker::ChangeState"),("WaitForVariableChange","internal/multi_thread_gemm.h"),("BlockingCounter","internal/multi_thread_gemm.h"),("CreateWorkers / destructor","internal/multi_thread_gemm.h WorkersPool")],
 [("worker state","startup/ready/has work/exit","Worker::state_"),("ready counter","number of workers still to become ready","WorkersPool::counter_to_decrement_when_ready_")],
 ["task run/finish, Execute call/return, thread create/exit/join, pool destruction"])

p("C06","Pool hand-offs are free of data races and publish memory in both directions",
 "Under the C++ memory model (not just x86 hardware ordering) everything the caller wrote before Execute is visible to each task, everything each task wrote is visible to the caller when Execute returns, and successive tasks on a worker see earlier work; no two unordered conflicting accesses to non-atomic memory ever occur inside the library. No two tasks that may run at the same time share a scratch allocator.",
 ["schedules","histories"],"all interleavings and all sequences of Execute calls and pool destruction, with ordering derived only from the declared memory orders and locks",
 "Tests run on strongly ordered hardware (or emulation) without a race detector; weakening a memory order changes nothing they can see.",
 ["internal/multi_thread_gemm.h","internal/allocator.h"],
 [("acquire/release on the counter","BlockingCounter"),("state mutex","Worker::ChangeState"),("per-worker allocators","Worker::local_allocator_, WorkersPool::main_thread_task_allocator_")],
 [("happens-before relation","vector clocks over atomics, mutexes, create/join","harness runtime")],
 ["every memory access and synchronisation operation of the instrumented library code"])

p("C07","Blocking counter releases its waiter exactly when all decrements happened",
 "After a reset to N, in every interleaving of decrementing threads and a waiter: exactly one of the N decrements reports reaching zero (the last one), a wait returns only after all N decrements have happened, always returns once they have, and what decrementing threads wrote before is then visible to the waiter. The counter can be reset and reused any number of times, and a wait at zero returns immediately.",
 ["schedules","histories"],"all N, all interleavings of decrements and waits, all reset/wait rounds",
 "The existing test runs a few free-running rounds; it does not control the interleaving and does not look at decrement results or memory visibility.",
 ["internal/multi_thread_gemm.h"],[("BlockingCounter Reset/DecrementCount/Wait","internal/multi_thread_gemm.h")],
 [("count","remaining decrements","BlockingCounter::count_")],["return values of DecrementCount, return of Wait"])

p("C08","Thread budget is respected and the task partition covers the result exactly once",
 "A GEMM never uses more threads (the calling thread included) than the maximum set on its context, creates none when that maximum is 1, and keeps its workers for later calls instead of creating new ones. Whenever it splits work into tasks, the tasks write pairwise disjoint parts of the result that together cover all of it, and executing them in any order, or on any pool implementation, gives the same result.",
 ["inputs","configurations","histories"],"all shapes, thread limits (including 0 = hardware), histories of limits and shapes, all orders in which a pool may run the tasks",
 "Tests never observe thread creation or the partition; overlapping or missing tasks can cancel out in the tolerant comparison or only appear for particular row/thread combinations.",
 ["internal/multi_thread_gemm.h","internal/platform.h"],
 [("HowManyThreads","internal/multi_thread_gemm.h"),("row partition","MultiThreadGemm"),("CreateWorkers","WorkersPool")],
 [("workers","threads kept by the pool","WorkersPool::workers_")],
 ["thread creation, task lists handed to a custom pool, result entries written per task"])

p("C09","Allocator hands out aligned, disjoint, stable blocks for every reserve history",
 "For every sequence of reserve/commit/use/decommit rounds with any mix of sizes and types, all buffers obtained in a round are suitably aligned for the kernels (64 bytes), pairwise disjoint, large enough, and entirely inside storage the allocator owns until decommit; storage is kept and not reallocated when a later round needs no more than an earlier one. Using a handle from another round, of another type, or outside the committed phase is detected and aborts.",
 ["histories","inputs"],"all sequences of rounds, all block counts up to the limit, all sizes including zero and one byte",
 "The unit test performs two rounds with two blocks of fixed sizes.",
 ["internal/allocator.h"],[("Reserve/Commit/Decommit/GetPointer","internal/allocator.h"),("generation ids","internal/allocator.h")],
 [("reserved blocks, storage, generation","bump allocation layout","Allocator")],
 ["pointers returned by GetPointer, allocation calls made, aborts"])

p("C10","Cache-blocking parameters always satisfy kernel and coverage constraints",
 "For every GEMM shape, thread count and cache configuration the chosen L1 and L2 block sizes are positive, multiples of the kernel's dimensions where the kernel needs it, L1 blocks fit inside L2 blocks, block loops make progress and cover the whole (rounded-up) problem, and the packed buffers they imply are large enough for every block that is ever packed. Rounding and quotient helpers return the least multiple, quotient or power of two that is at least the exact value.",
 ["inputs","configurations"],"all rows/cols/depth, thread counts, L1/L2 byte settings, RHS factors, and every kernel format",
 "Tests only see parameter values for default cache sizes; degenerate settings (tiny caches, huge depth, one column) never occur together.",
 ["internal/block_params.h","internal/common.h","internal/pack.h","internal/compute.h"],
 [("BlockParams::FindL2BlockSizes / FindL1BlockSizes","internal/block_params.h"),("RoundUp/CeilQuotient/RoundUpToPowerOfTwo","internal/common.h")],
 [("l1/l2 rows, cols, depth","block sizes","BlockParams")],["BlockParams fields after Init, helper return values"])

p("C11","Legacy eight-bit API computes its documented formula in every layout and history",
 "EightBitIntGemm computes, for every combination of the three transpose flags, leading dimensions, offsets and the bit-depth setting, exactly clamp((sum_k (a+a_offset)(b+b_offset) + c_offset)*c_mult with rounding shift) to 0..255 (integer variant) and c_offset times the exact sum (float variant), and writes only the entries of c. Results are unaffected by any history of thread-count changes, resource releases and other calls.",
 ["inputs","histories","configurations"],"all transpose flags, shapes, leading dimensions, offsets, multipliers and shifts, and all histories of SetMaxNumThreads/FreePersistentResources/calls",
 "Tests use contiguous matrices with tolerant comparison, and call FreePersistentResources only at the end.",
 ["eight_bit_int_gemm/eight_bit_int_gemm.cc","eight_bit_int_gemm/eight_bit_int_gemm.h"],
 [("transpose dispatch","EightBitIntGemmImpl"),("persistent global context/scratch","eight_bit_int_gemm.cc globals")],
 [("global context, thread limit, scratch","persistent resources","eight_bit_int_gemm.cc")],
 ["c buffer, threads alive"])

p("C12","Fixed-point primitives round and saturate exactly, in every SIMD lane",
 "For every operand value the fixed-point building blocks return their exact mathematical definition: saturating rounding doubling high multiply, rounding divide by power of two (ties away from zero), saturating multiply by power of two, rescale, saturating add, half-sum, masks and selects. Every lane of every SIMD version returns the same bits as the scalar version, for 16- and 32-bit raw types.",
 ["inputs","configurations"],"all raw operand values incl. extremes, all shift exponents, all lanes, all back ends",
 "test_fixedpoint draws random operands; exact ties, INT_MIN corners and mixed-lane cases are rare or excluded, and the AVX2 test does not run to completion.",
 ["fixedpoint/fixedpoint.h","fixedpoint/fixedpoint_sse.h","fixedpoint/fixedpoint_avx.h","fixedpoint/fixedpoint_neon.h"],
 [("SaturatingRoundingDoublingHighMul, RoundingDivideByPOT, SaturatingRoundingMultiplyByPOT, Rescale","fixedpoint/fixedpoint*.h")],
 (),["return values lane by lane"])

p("C13","Fixed-point exp, tanh, logistic and reciprocals stay in range and accurate",
 "For every input the fixed-point exponential of negative values, tanh, logistic, 1/(1+x), (1-x)/(1+x) return values within their stated range and within a small bound of the real function; tanh is odd, logistic(x)+logistic(-x)=1 up to rounding, and exp and tanh never deviate from monotonicity by more than that bound. All integer-bit formats, both raw widths and all SIMD lanes agree bit for bit with the scalar version.",
 ["inputs","configurations"],"all raw inputs of each supported format (int16 and int32 raw types), all lanes and back ends",
 "Tests compare with a tolerance on a grid of points per format and do not relate neighbouring or mirrored inputs, nor lanes holding different values.",
 ["fixedpoint/fixedpoint.h","fixedpoint/fixedpoint_sse.h","fixedpoint/fixedpoint_neon.h"],
 [("exp_on_negative_values, tanh, logistic, one_over_one_plus_x_for_x_in_0_1","fixedpoint/fixedpoint.h")],
 (),["return values"])

p("C14","Concurrent GEMMs do not interfere; the legacy API serialises its callers",
 "GEMMs running concurrently on different threads with different contexts each produce the result they would produce alone, without data races on any library state. Concurrent calls into the legacy eight-bit API (including thread-count changes and resource release) from any number of threads behave as if executed one at a time in some order, never deadlock, and each gives its exact result.",
 ["schedules","histories"],"all interleavings of two or more application threads issuing GEMMs, SetMaxNumThreads and FreePersistentResources",
 "No existing test calls the library from two application threads.",
 ["eight_bit_int_gemm/eight_bit_int_gemm.cc","internal/multi_thread_gemm.h","profiling/instrumentation.h"],
 [("global lock","GlobalMutexes::EightBitIntGemm / ScopedLock"),("no shared state between contexts","internal/*")],
 [("global persistent resources","context, scratch, thread limit","eight_bit_int_gemm.cc")],
 ["calls/returns and results per application thread"])

p("C15","Meta GEMM and transforms match their formulas for any split over threads",
 "The ARM meta library's GEMM (quantized, int32 and float outputs; row- and column-major operands) and element transforms compute their documented formula for every shape, leftover size and stride, write only their outputs, and give the same result single-threaded and multi-threaded for every thread limit. Packing stays within the scratch size the library itself asks for, concurrently running tasks never share scratch bytes or result entries, and tasks only use parameters and operands that are still alive. Operand and scratch alignment are as the kernels require; the legacy entry points are covered for depths 8 to 2048.",
 ["inputs","configurations"],"all m,n,k (all leftover combinations), strides, offsets, thread limits, on NEON32 and NEON64",
 "Existing meta tests use contiguous operands and a few shapes; some do not run to completion under emulation; scratch usage is never observed.",
 ["meta/single_thread_gemm.h","meta/multi_thread_gemm.h","meta/multi_thread_transform.h","meta/legacy_multi_thread_common.h","meta/legacy_multi_thread_gemm.h","meta/streams_arm_64.h","meta/quantized_mul_kernels_arm_64.h","meta/transform_kernels_arm_64.h"],
 [("PrepareGemmTasks / PrepareTransform1DTasks","meta/multi_thread_gemm.h, meta/multi_thread_transform.h"),("leftover dispatch","meta/single_thread_gemm.h")],
 (),["result and scratch memory"])

p("C16","Profiler samples are genuine label stacks and survive thread exits",
 "While profiling is on, every recorded sample of a registered thread is a label stack that thread really had, threads may register, push and pop labels, and exit at any time in any interleaving with the profiler without use of freed memory or deadlock, in any number over the life of the process, and finishing always returns. In every sampling round each registered thread is sampled exactly once. The printed profile's percentages are consistent: each node's share equals the fraction of samples under that label path, and children plus 'other' add up to their parent.",
 ["schedules","histories"],"all interleavings of labelled threads, thread registration/exit, and profiler start/sample/finish",
 "There is no test of the profiler at all.",
 ["profiling/instrumentation.h","profiling/profiler.h"],
 [("per-stack lock","ProfilingStack"),("global registry lock","GlobalMutexes::Profiler"),("thread-exit callback","ThreadInfo")],
 [("ThreadsUnderProfiling","registered threads","profiling/instrumentation.h"),("label stacks","ProfilingStack","profiling/instrumentation.h")],
 ["recorded stacks, printed tree, memory accesses"])

p("C17","Matrix and vector views address exactly the documented elements",
 "For every order, shape, stride and element, a matrix view's (r,c) element is the one at r*stride+c (row-major) or c*stride+r (column-major) from its base, blocks of blocks address the same elements as the corresponding offsets of the original view, transposition swaps indices without moving elements, and vector and duplicated-vector views and their blocks keep the indexed values. Element offsets fit in an int. Views never copy, own or modify the data.",
 ["inputs"],"all orders, shapes, strides, nested block and transpose sequences",
 "Tests use views only through GEMM, almost always contiguous and never nested.",
 ["public/map.h","internal/dispatch_gemm_shape.h"],
 [("MatrixMap::data/block, VectorMap, VectorDup","public/map.h"),("Transpose","internal/dispatch_gemm_shape.h")],
 (),["element addresses"])
p("C18","Packing and kernels honour the declared packed format",
 "For every kernel format (cell width, depth and count, depth-major, width-major or diagonal storage order, unsigned or signed packed scalars) the operands handed to a kernel are laid out exactly as its format declares, zero-extended in depth and width, so any kernel written to that format gives exact products with the library's GEMM drivers. Every kernel in the library, given operands packed in its declared format (zero beyond the run's depth), computes exactly the block product for every depth, overwrites its destination block when start_depth is 0 and adds to it otherwise, and touches nothing but that block.",
 ["inputs","configurations"],"all kernel formats, shapes, depths and depth splits, operand values, start depths and destination strides, on every back end",
 "test.cc runs a handful of formats through one GEMM shape each with loose comparison; signed formats, diagonal cells with several cells per side, and kernels on their own are never tested.",
 ["internal/kernel.h","internal/kernel_reference.h","internal/kernel_sse.h","internal/kernel_avx.h","internal/kernel_neon.h","internal/pack.h","internal/pack_sse.h","internal/pack_avx.h","internal/pack_neon.h","internal/compute.h","doc/kernel.md","doc/packing.md"],
 [("OffsetIntoCell, KernelFormat","internal/kernel.h"),("PackingRegisterBlock and its specialisations","internal/pack*.h"),("KernelBase::Run contract","internal/kernel.h"),("depth-wise run splitting","internal/compute.h")],
 [("packed side blocks","operands in cell order","internal/pack.h")],
 ["KernelBase::Run arguments and destination block","GEMM results with user-supplied kernels"])

p("C19","Contexts, pools and the legacy API release everything they hold",
 "After a GEMM context or worker pool is destroyed, or the legacy API's FreePersistentResources returns, none of the memory it allocated remains allocated and none of the threads it started is still running, whatever sequence of settings changes and calls went before; destruction always returns. Repeating a call any number of times on the same context does not make the memory or the threads it holds grow without bound: they settle. A pool destroys the tasks it is asked to execute and destroy, once each, and never those it is only asked to execute.",
 ["histories","configurations"],"all histories of settings changes, calls of all shapes, releases and re-creations, on contexts, worker pools and the legacy API, with and without the ARM fast path",
 "The tests create contexts once per process and do not look at memory or threads after destroying them.",
 ["internal/allocator.h","internal/multi_thread_gemm.h","internal/single_thread_gemm.h","public/gemmlowp.h","eight_bit_int_gemm/eight_bit_int_gemm.cc"],
 [("Allocator storage reuse and release","internal/allocator.h"),("Worker and WorkersPool destruction","internal/multi_thread_gemm.h"),("FreePersistentResources","eight_bit_int_gemm.cc")],
 [("allocator storage, worker threads, global context and scratch","what a context owns","internal/allocator.h, internal/multi_thread_gemm.h")],
 ["memory blocks and threads held after each call and after destruction"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
