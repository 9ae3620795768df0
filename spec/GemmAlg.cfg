CONSTANTS
  KR = 2
  KC = 2
  RS = 2
  MaxBlk = 3
SPECIFICATION Spec
INVARIANTS InBounds Exact
PROPERTY Terminates
