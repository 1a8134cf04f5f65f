INIT Init
NEXT Next
CONSTANTS
  Threads = 2
  Segments = 4
  Register = "shared"
  Emit = FALSE
INVARIANT Isolated
INVARIANT Emitted
CHECK_DEADLOCK FALSE
