INIT Init
NEXT Next
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
CONSTANTS
  Sz = {1, 2, 3}
  MaxDim = 4
  Extra = {"o", "s"}
  How = "built"
