SPECIFICATION Spec
CONSTANTS
  C <- MCConfig
  Worlds <- MCWorlds
  CrashBudget <- MCCrash
  FailBudget <- MCFail
INVARIANTS
  EveryoneAccountedFor AtReturn ParallelLimit WorkConserving OneResultEach NodesCovered
  RefinedAreNodes Separated NoStencilNoRefinement LaunchedExactly ClosedDisk SavedAtEnd ResultsKept
  RunningIsPending ScheduleIndependent
PROPERTIES NotCovered DiskIsCurrent ResultsGrow
CHECK_DEADLOCK FALSE
