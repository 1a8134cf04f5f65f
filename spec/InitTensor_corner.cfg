INIT Init
NEXT Next
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
CONSTANTS
  Sz = {1, 2, 3}
  MaxDim = 3
  Extra = {"o"}
  How = "corner"
