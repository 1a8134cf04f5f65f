INIT Init
NEXT Next
CONSTANTS
  Depth = 5
  MaxInst = 3
  Variant = "exact"
  Emit = FALSE
INVARIANT NeverStale
CHECK_DEADLOCK FALSE
