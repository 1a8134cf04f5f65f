INIT Init
NEXT Next
CONSTANTS
  T = 3
  Adaptive = TRUE
  Sizes = {1, 2, 4}
  Maps = {0, 1, 2}
  Depth = 12
  Variant = "design"
  Emit = TRUE
INVARIANT NoTrace
INVARIANT Ruled
INVARIANT Emitted
CHECK_DEADLOCK FALSE
