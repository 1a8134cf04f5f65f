SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxExp = 2
  Limit = 4
  Guard = FALSE
  Rescale = "always"
INVARIANTS Finite Exact Ordinary
CHECK_DEADLOCK FALSE
