SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Dims = {1, 2, 3}
  Leftover = "keep"
INVARIANTS InOrder Fits Depth
PROPERTY Terminates
CHECK_DEADLOCK FALSE
