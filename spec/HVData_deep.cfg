INIT Init
NEXT Next
CONSTANTS
  MaxN = 4
  Swaps = 2
  Variant = "design"
INVARIANT Good
CHECK_DEADLOCK FALSE
