INIT Init
NEXT Next
CONSTANTS
  T = 3
  Adaptive = TRUE
  Sizes = {1, 2, 4}
  Maps = {0, 1, 2}
  Depth = 5
  Variant = "design"
  Emit = FALSE
INVARIANT NoTrace
INVARIANT Ruled

CHECK_DEADLOCK FALSE
