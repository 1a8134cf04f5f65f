INIT Init
NEXT Next
CONSTANTS
  MaxInst = 2
  MaxLen = 4
  Variant = "design"
  Ways = {"copy", "load"}
  Sizes = {1, 3}
  Copies = {"deepcopy", "state"}
  Emit = TRUE
INVARIANT Faithful
INVARIANT Separate
INVARIANT Emitted
CHECK_DEADLOCK FALSE
