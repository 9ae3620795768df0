SPECIFICATION Spec
CONSTANTS
  T = {1, 2}
  Labels = {1}
  MaxDepth = 1
  MaxOps = 2
  MaxTicks = 1
  EraseFirst = TRUE
  Locked = TRUE
INVARIANTS Genuine NoFreedTouched
PROPERTIES FinishReturns ThreadsExit
