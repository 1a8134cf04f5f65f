INIT Init
NEXT Next
CONSTANTS
  MaxN = 3
  MaxD = 2
  Seeds = {1, 3}
  Variant = "exact"
INVARIANT OrderedIsPathSum
INVARIANT DerivativeIsDifference
INVARIANT RawIsChainRule
CHECK_DEADLOCK FALSE
