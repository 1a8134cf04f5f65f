INIT Init
NEXT Next
CONSTANTS
  Parts = {"a", "input"}
  Sees = {"address", "count"}
  Keyed = {"a", "input"}
  MemoIn = {"train"}
  Many = TRUE
  Depth = 5
  Tours = FALSE
  Emit = FALSE
INVARIANT Fresh
INVARIANT Emitted
CHECK_DEADLOCK FALSE
