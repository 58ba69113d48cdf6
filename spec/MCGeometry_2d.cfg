SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes = {2, 3}
  NegLos = {1}
  MaxOut = 1
  Cuts2 = {2, 5}
  Dims = {2}
  Cap = 3
  Img = 3
