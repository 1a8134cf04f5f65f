CONSTANTS
  Batch = 2
  MaxLen = 1
  Seeds = {1, 3}
  Bias = {"none", "fixed", "trainable"}
  Collate = "raw"
  Guard = TRUE
INIT Init
NEXT Next
INVARIANT PaddingIsInvisible
CHECK_DEADLOCK FALSE
