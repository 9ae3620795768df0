CONSTANTS Threads = {1, 2}
 MaxOps = 2
 Lims = {1, 3}
 Guarded = {"gemm", "set", "free"}
SPECIFICATION Spec
INVARIANTS Exclusive NoUseAfterFree OneContext
PROPERTIES AllReturn Refines
CHECK_DEADLOCK TRUE
