SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxExp = 3
  Limit = 6
  Guard = TRUE
  Rescale = "always"
INVARIANTS Finite Exact Ordinary
CHECK_DEADLOCK FALSE
