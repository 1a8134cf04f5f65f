INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  MaxVal = 4
  Variant = "nozero"
INVARIANT Contract
CHECK_DEADLOCK FALSE
