CONSTANTS
  N = 4
  S = 2
  MaxCalls = 4
SPECIFICATION Spec
INVARIANTS Released
PROPERTIES Settled Ends CallEnds
CHECK_DEADLOCK TRUE
