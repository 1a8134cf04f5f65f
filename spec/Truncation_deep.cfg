INIT Init
NEXT Next
CONSTANTS
  MaxLen = 6
  MaxVal = 6
  Variant = "design"
INVARIANT Contract
CHECK_DEADLOCK FALSE
