INIT Init
NEXT Next
INVARIANTS Standard Entries
CHECK_DEADLOCK FALSE
CONSTANTS
  Sz = {0, 1, 2}
  MaxRank = 2
  Count = 3
  How = "standard"
