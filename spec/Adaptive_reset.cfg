INIT Init
NEXT Next
CONSTANTS
  MaxN = 2
  Thresholds = {1, 2}
  Batches = {1, 3}
  MaxLen = 4
  MaxInst = 1
  Variant = "reset"
  Ops = {"call"}
  Emit = FALSE
INVARIANT Scheduled


CHECK_DEADLOCK FALSE
