SPECIFICATION MSpec
CONSTANTS
  C <- MCConfig
  Worlds <- MCWorlds
  CrashBudget <- MCCrash
  FailBudget <- MCFail
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
