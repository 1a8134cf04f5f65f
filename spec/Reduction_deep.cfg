SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Dims = {1, 2}
  Leftover = "keep"
INVARIANTS InOrder Fits Depth
PROPERTY Terminates
CHECK_DEADLOCK FALSE
