CONSTANTS
  Batch = 2
  MaxLen = 2
  Seeds = {1, 3}
  Bias = {"none", "fixed", "trainable"}
  Collate = "right"
  Guard = TRUE
INIT Init
NEXT Next
INVARIANT PaddingIsInvisible
CHECK_DEADLOCK FALSE
