INIT Init
NEXT Next
CONSTANTS
  Parts = {"a", "b", "c", "input"}
  Sees = {}
  Keyed = {"a", "b", "c", "input"}
  MemoIn = {"train", "eval", "no_grad", "inference", "backward"}
  Many = TRUE
  Depth = 0
  Tours = TRUE
  Emit = TRUE
INVARIANT Fresh
INVARIANT Emitted
CHECK_DEADLOCK FALSE
