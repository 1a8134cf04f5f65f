INIT Init
NEXT Next
CONSTANTS
  MaxN = 5
  Thresholds = {1}
  Batches = {1}
  MaxLen = 4
  MaxInst = 1
  Variant = "anywhere"
  Ops = {"call"}
  Emit = FALSE
INVARIANT Correct


CHECK_DEADLOCK FALSE
