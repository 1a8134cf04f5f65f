INIT Init
NEXT Next
CONSTANTS
  Threads = 2
  Segments = 4
  Register = "own"
  Emit = TRUE
INVARIANT Isolated
INVARIANT Emitted
CHECK_DEADLOCK FALSE
