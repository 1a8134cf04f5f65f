SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Dims = {1, 2, 3}
  Leftover = "front"
INVARIANTS InOrder Fits Depth
CHECK_DEADLOCK FALSE
