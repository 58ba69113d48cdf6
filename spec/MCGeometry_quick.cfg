SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes = {1, 2, 3, 5, 6}
  NegLos = {0, 2}
  MaxOut = 4
  Cuts2 = {1, 2, 3, 4, 7, 9, 30, 50}
  Dims = {1}
  Cap = 4
  Img = 14
