SPECIFICATION Spec
CONSTANTS
  MaxRows = 60
  Cols = 3
  L2Cols = 2
  MaxThreads = 4
  KernelRowsSet = {4, 8, 12, 24}
  MinCubic = 30
  DepthSize = 1
INVARIANTS Budget NeverTwice Covered
