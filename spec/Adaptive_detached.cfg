INIT Init
NEXT Next
CONSTANTS
  MaxN = 3
  Thresholds = {1, 2}
  Batches = {1}
  MaxLen = 5
  MaxInst = 1
  Variant = "detached"
  Ops = {"call", "train", "set"}
  Emit = FALSE
INVARIANT Attached


CHECK_DEADLOCK FALSE
