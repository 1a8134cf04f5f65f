INIT Init
NEXT Next
CONSTANTS
  MaxInst = 3
  MaxLen = 12
  Variant = "design"
  Ways = {"copy", "data", "step", "load"}
  Sizes = {1, 2, 5}
  Copies = {"deepcopy", "pickle", "state", "file"}
  Emit = TRUE
INVARIANT Faithful
INVARIANT Separate
INVARIANT Emitted
CHECK_DEADLOCK FALSE
