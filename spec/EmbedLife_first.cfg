INIT Init
NEXT Next
CONSTANTS
  Depth = 4
  MaxInst = 2
  Variant = "first"
  Emit = FALSE
INVARIANT NeverStale
CHECK_DEADLOCK FALSE
