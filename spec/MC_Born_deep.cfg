INIT Init
NEXT Next
CONSTANTS
  Vals <- ValsCplx
  MaxN = 2
  Dim = 2
  Domains <- DomainsDef
  Variant = "exact"
INVARIANT TransferIsSum
INVARIANT ShiftIsSum
CHECK_DEADLOCK FALSE
