INIT Init
NEXT Next
CONSTANTS
  NF = 1
  NM = 1
  MaxInst = 2
  Depth = 3
  Variant = "exact"
  Emit = TRUE
INVARIANT AlwaysCurrent
INVARIANT OwnsItsModule
INVARIANT Emitted
CHECK_DEADLOCK FALSE
