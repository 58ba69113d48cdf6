SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes = {1, 2, 3, 4}
  NegLos = {0, 2}
  MaxOut = 2
  Cuts2 = {1, 2, 4, 5, 9, 26}
  Dims = {2}
  Cap = 4
  Img = 7
