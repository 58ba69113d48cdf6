SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  MaxIter = 4
  MaxFev = 9
  XTol2 = 64
  FTol2 = 2
  N = 1
INVARIANTS SortedInv TrueValues BestNeverIncreases VolumeRule Counts SuccessRule NoGap
CHECK_DEADLOCK FALSE
