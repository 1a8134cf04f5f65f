INIT Init
NEXT Next
INVARIANT Constant
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 2
  MaxD = 3
  MaxO = 3
  Values = {0, 1, 3}
  How = ""
