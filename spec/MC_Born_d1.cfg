INIT Init
NEXT Next
CONSTANTS
  Vals <- ValsReal
  MaxN = 2
  Dim = 1
  Domains <- DomainsDef
  Variant = "exact"
INVARIANT TransferIsSum
INVARIANT ShiftIsSum
CHECK_DEADLOCK FALSE
