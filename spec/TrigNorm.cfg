INIT Init
NEXT Next
CONSTANTS
  MaxD = 6
  MaxQ = 8
  Variant = "design"
INVARIANT UnitNorm
INVARIANT Reduced
CHECK_DEADLOCK FALSE
