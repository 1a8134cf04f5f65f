INIT Init
NEXT Next
INVARIANT Constant
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  MaxD = 3
  MaxO = 3
  Values = {0, 5, 3}
  How = ""
