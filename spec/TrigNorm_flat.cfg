INIT Init
NEXT Next
CONSTANTS
  MaxD = 3
  MaxQ = 3
  Variant = "flat"
INVARIANT UnitNorm
CHECK_DEADLOCK FALSE
