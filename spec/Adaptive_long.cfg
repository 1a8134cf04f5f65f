INIT Init
NEXT Next
CONSTANTS
  MaxN = 12
  Thresholds = {0, 1, 2, 3}
  Batches = {0, 1, 2, 4}
  MaxLen = 12
  MaxInst = 1
  Variant = "design"
  Ops = {"call", "assign"}
  Emit = FALSE
INVARIANT Correct

INVARIANT Partition
INVARIANT Scheduled
INVARIANT Attached
PROPERTY Prompt

VIEW View
CHECK_DEADLOCK FALSE
