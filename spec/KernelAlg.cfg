CONSTANTS
  RS = 4
  MaxDepth = 6
SPECIFICATION Spec
INVARIANTS Bijective Placed SumsRight SplitRuns
PROPERTY Done
CHECK_DEADLOCK FALSE
