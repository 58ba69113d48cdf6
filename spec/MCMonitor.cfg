SPECIFICATION MSpec
CONSTANTS
  C <- MCConfig
  Worlds <- MCWorlds
  CrashBudget <- MCCrash
  FailBudget <- MCFail
INVARIANTS Accepted AcceptedBetween
CHECK_DEADLOCK FALSE
