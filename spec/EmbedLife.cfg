INIT Init
NEXT Next
CONSTANTS
  Depth = 3
  MaxInst = 3
  Variant = "exact"
  Emit = TRUE
INVARIANT NeverStale
INVARIANT Emitted
CHECK_DEADLOCK FALSE
