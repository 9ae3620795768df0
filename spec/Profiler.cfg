SPECIFICATION Spec
CONSTANTS
  T = {1, 2}
  Labels = {1, 2}
  MaxDepth = 2
  MaxOps = 3
  MaxTicks = 1
  EraseFirst = TRUE
  Locked = TRUE
INVARIANTS Genuine NoFreedTouched
