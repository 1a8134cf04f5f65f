INIT Init
NEXT Next
CONSTANTS
  MaxN = 10
  Thresholds = {1, 2, 5, 7}
  Batches = {0, 1, 2, 3, 8}
  MaxLen = 14
  MaxInst = 1
  Variant = "design"
  Ops = {"call"}
  Emit = TRUE
INVARIANT Emitted


CHECK_DEADLOCK FALSE
