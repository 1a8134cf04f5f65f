INIT Init
NEXT Next
CONSTANTS
  MaxN = 3
  Swaps = 1
  Variant = "apart"
INVARIANT Good
CHECK_DEADLOCK FALSE
