INIT Init
NEXT Next
CONSTANTS
  Vals <- ValsTiny
  MaxN = 2
  Dim = 1
  Domains <- DomainsSlope
  Variant = "exact"
INVARIANT SlopeIsSum
INVARIANT SlopeIsDifference
CHECK_DEADLOCK FALSE
