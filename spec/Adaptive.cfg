INIT Init
NEXT Next
CONSTANTS
  MaxN = 6
  Thresholds = {0, 1, 3}
  Batches = {0, 1, 2, 4}
  MaxLen = 3
  MaxInst = 2
  Variant = "design"
  Ops = {"call", "train", "set", "copy", "assign"}
  Emit = FALSE
INVARIANT Correct
INVARIANT Recovers
INVARIANT Partition
INVARIANT Scheduled
INVARIANT Attached
PROPERTY Prompt

CHECK_DEADLOCK FALSE
