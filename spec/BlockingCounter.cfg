SPECIFICATION Spec
CONSTANTS
  N = 4
  Rounds = 3
  DecRelease = TRUE
  DecRMW = TRUE
  WaitAcquire = TRUE
INVARIANTS RetAllowed WaitAllowed Visible CountOK
PROPERTIES Returns
CHECK_DEADLOCK TRUE
