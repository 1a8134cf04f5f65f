INIT Init
NEXT Next
CONSTANTS
  MaxN = 2
  Thresholds = {1, 2}
  Batches = {1, 3}
  MaxLen = 4
  MaxInst = 2
  Variant = "half"
  Ops = {"call", "train", "set", "copy", "assign"}
  Emit = FALSE
INVARIANT Attached


CHECK_DEADLOCK FALSE
