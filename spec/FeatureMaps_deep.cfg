INIT Init
NEXT Next
CONSTANTS
  NF = 2
  NM = 2
  MaxInst = 2
  Depth = 5
  Variant = "exact"
  Emit = FALSE
INVARIANT AlwaysCurrent
INVARIANT OwnsItsModule
INVARIANT Emitted
CHECK_DEADLOCK FALSE
