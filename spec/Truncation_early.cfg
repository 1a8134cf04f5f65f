INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  MaxVal = 4
  Variant = "early"
INVARIANT Contract
CHECK_DEADLOCK FALSE
