INIT Init
NEXT Next
CONSTANTS
  Parts = {"a", "input"}
  Sees = {"count"}
  Keyed = {"a", "input"}
  MemoIn = {"eval"}
  Many = FALSE
  Depth = 4
  Tours = FALSE
  Emit = FALSE
INVARIANT Fresh
INVARIANT Emitted
CHECK_DEADLOCK FALSE
