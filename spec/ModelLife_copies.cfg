INIT Init
NEXT Next
CONSTANTS
  MaxInst = 2
  MaxLen = 5
  Variant = "design"
  Ways = {"copy"}
  Sizes = {1, 2}
  Copies = {"deepcopy", "pickle", "state", "file"}
  Emit = TRUE
INVARIANT Faithful
INVARIANT Separate
INVARIANT Emitted
CHECK_DEADLOCK FALSE
