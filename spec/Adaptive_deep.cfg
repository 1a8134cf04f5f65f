INIT Init
NEXT Next
CONSTANTS
  MaxN = 10
  Thresholds = {0, 1, 2, 3}
  Batches = {0, 1, 2, 5}
  MaxLen = 3
  MaxInst = 2
  Variant = "design"
  Ops = {"call", "train", "set", "copy", "assign"}
  Emit = FALSE
INVARIANT Correct
INVARIANT Recovers
INVARIANT Partition
INVARIANT Scheduled
INVARIANT Attached
PROPERTY Prompt

CHECK_DEADLOCK FALSE
