INIT Init
NEXT Next
CONSTANTS
  T = 3
  Adaptive = FALSE
  Sizes = {1, 2}
  Maps = {0, 1, 2}
  Depth = 10
  Variant = "design"
  Emit = TRUE
INVARIANT NoTrace
INVARIANT Ruled
INVARIANT Emitted
CHECK_DEADLOCK FALSE
