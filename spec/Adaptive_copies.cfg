INIT Init
NEXT Next
CONSTANTS
  MaxN = 5
  Thresholds = {1, 2, 4}
  Batches = {1, 3}
  MaxLen = 9
  MaxInst = 3
  Variant = "design"
  Ops = {"call", "train", "set", "copy", "assign"}
  Emit = TRUE
INVARIANT Emitted


CHECK_DEADLOCK FALSE
