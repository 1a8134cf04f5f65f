INIT Init
NEXT Next
CONSTANTS
  Threads = 3
  Segments = 3
  Register = "own"
  Emit = TRUE
INVARIANT Isolated
INVARIANT Emitted
CHECK_DEADLOCK FALSE
