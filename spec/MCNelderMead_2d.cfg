SPECIFICATION Spec
CONSTANTS
  Values = {0, 1}
  MaxIter = 3
  MaxFev = 9
  XTol2 = 256
  FTol2 = 0
  N = 2
INVARIANTS SortedInv TrueValues BestNeverIncreases VolumeRule Counts SuccessRule NoGap
CHECK_DEADLOCK FALSE
