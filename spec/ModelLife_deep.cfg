INIT Init
NEXT Next
CONSTANTS
  MaxInst = 3
  MaxLen = 5
  Variant = "design"
  Ways = {"copy"}
  Sizes = {1, 3}
  Copies = {"deepcopy"}
  Emit = FALSE
INVARIANT Faithful
INVARIANT Separate
INVARIANT Emitted
CHECK_DEADLOCK FALSE
