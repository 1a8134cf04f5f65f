INIT Init
NEXT Next
CONSTANTS
  MaxInst = 2
  MaxLen = 4
  Variant = "cached"
  Ways = {"copy"}
  Sizes = {1}
  Copies = {"deepcopy"}
  Emit = FALSE
INVARIANT Faithful
INVARIANT Separate
INVARIANT Emitted
CHECK_DEADLOCK FALSE
