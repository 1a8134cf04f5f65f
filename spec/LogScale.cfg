SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxExp = 2
  Limit = 4
  Guard = TRUE
  Rescale = "always"
INVARIANTS Finite Exact Ordinary
CHECK_DEADLOCK FALSE
