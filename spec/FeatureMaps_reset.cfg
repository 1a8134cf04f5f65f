INIT Init
NEXT Next
CONSTANTS
  NF = 1
  NM = 1
  MaxInst = 1
  Depth = 4
  Variant = "reset"
  Emit = FALSE
INVARIANT AlwaysCurrent
INVARIANT OwnsItsModule
INVARIANT Emitted
CHECK_DEADLOCK FALSE
