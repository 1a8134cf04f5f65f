INIT Init
NEXT Next
CONSTANTS
  Parts = {"a", "input"}
  Sees = {"content"}
  Keyed = {"a", "input"}
  MemoIn = {"train", "eval", "no_grad", "inference", "backward"}
  Many = TRUE
  Depth = 4
  Tours = FALSE
  Emit = FALSE
INVARIANT Fresh
INVARIANT Emitted
CHECK_DEADLOCK FALSE
