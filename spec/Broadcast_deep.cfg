INIT Init
NEXT Next
INVARIANTS Standard Entries
CHECK_DEADLOCK FALSE
CONSTANTS
  Sz = {0, 1, 2, 3}
  MaxRank = 3
  Count = 2
  How = "standard"
