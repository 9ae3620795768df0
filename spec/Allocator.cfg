CONSTANTS
  MaxBlocks = 2
  Sizes = {0, 3}
  Types = {1, 2}
  MaxRounds = 2
SPECIFICATION Spec
INVARIANT Inv
PROPERTY KeepsStorage
CHECK_DEADLOCK FALSE
