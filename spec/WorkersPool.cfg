SPECIFICATION Spec
CONSTANTS
  MaxTasks = 3
  MaxBatches = 2
  MaxSpurious = 1
  DecRelease = TRUE
  WaitAcquire = TRUE
  HoldLock = TRUE
  Recheck = TRUE
  WaitReady = TRUE
  SettleBeforeSignal = TRUE
INVARIANTS TypeOK Visible TaskSlotGuarded
PROPERTIES Refines ReturnsAlways DestroyTerminates
CHECK_DEADLOCK TRUE
