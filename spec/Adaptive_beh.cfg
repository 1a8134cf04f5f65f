INIT Init
NEXT Next
CONSTANTS
  MaxN = 3
  Thresholds = {0, 1, 3}
  Batches = {0, 1, 2, 4}
  MaxLen = 4
  MaxInst = 1
  Variant = "design"
  Ops = {"call"}
  Emit = TRUE
INVARIANT Emitted


CHECK_DEADLOCK FALSE
