INIT Init
NEXT Next
CONSTANTS
  Depth = 4
  MaxInst = 2
  Variant = "step"
  Emit = FALSE
INVARIANT NeverStale
CHECK_DEADLOCK FALSE
