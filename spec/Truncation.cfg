INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  MaxVal = 4
  Variant = "design"
INVARIANT Contract
CHECK_DEADLOCK FALSE
