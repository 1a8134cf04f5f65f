INIT Init
NEXT Next
CONSTANTS
  Vals <- ValsTiny
  MaxN = 2
  Dim = 1
  Domains <- DomainsSlope
  Variant = "onesite"
INVARIANT SlopeIsSum
CHECK_DEADLOCK FALSE
