INIT Init
NEXT Next
CONSTANTS
  MaxN = 2
  Thresholds = {1, 2}
  Batches = {1, 3}
  MaxLen = 4
  MaxInst = 1
  Variant = "late"
  Ops = {"call"}
  Emit = FALSE

PROPERTY Prompt

CHECK_DEADLOCK FALSE
