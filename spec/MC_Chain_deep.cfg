INIT Init
NEXT Next
CONSTANTS
  MaxN = 4
  MaxD = 3
  Seeds = {0, 1, 2, 3}
  Variant = "exact"
INVARIANT OrderedIsPathSum
INVARIANT DerivativeIsDifference
INVARIANT RawIsChainRule
CHECK_DEADLOCK FALSE
