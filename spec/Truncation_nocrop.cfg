INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  MaxVal = 4
  Variant = "nocrop"
INVARIANT Contract
CHECK_DEADLOCK FALSE
