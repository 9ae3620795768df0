CONSTANTS
  MaxRows = 14
  MaxCols = 9
  MaxDepth = 9
  MaxThreads = 3
  KR = 3
  KC = 2
  KD = 2
  RS = 4
  L1s = {1, 60, 200}
  L2s = {1, 40, 150, 600}
  Factors = {1, 50, 100}
SPECIFICATION Spec
INVARIANT DesignOK
CHECK_DEADLOCK FALSE
