INIT Init
NEXT Next
INVARIANTS Standard
CHECK_DEADLOCK FALSE
CONSTANTS
  Sz = {0, 1, 2, 3}
  MaxRank = 2
  Count = 2
  How = "left"
