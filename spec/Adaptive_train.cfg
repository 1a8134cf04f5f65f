INIT Init
NEXT Next
CONSTANTS
  MaxN = 5
  Thresholds = {1, 2, 3}
  Batches = {1, 2}
  MaxLen = 9
  MaxInst = 1
  Variant = "design"
  Ops = {"call", "train", "set"}
  Emit = TRUE
INVARIANT Emitted


CHECK_DEADLOCK FALSE
