INIT Init
NEXT Next
CONSTANTS
  NF = 2
  NM = 2
  MaxInst = 3
  Depth = 12
  Variant = "exact"
  Emit = TRUE
INVARIANT AlwaysCurrent
INVARIANT OwnsItsModule
INVARIANT Emitted
CHECK_DEADLOCK FALSE
