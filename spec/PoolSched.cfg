SPECIFICATION SSpec
CONSTANTS
  MaxTasks = 4
  MaxBatches = 3
  MaxSpurious = 1
  DecRelease = TRUE
  WaitAcquire = TRUE
  HoldLock = TRUE
  Recheck = TRUE
  WaitReady = TRUE
  SettleBeforeSignal = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
