INIT Init
NEXT Next
CONSTANTS
  Vals <- ValsCplx
  MaxN = 2
  Dim = 1
  Domains <- DomainsDef
  Variant = "lossy"
INVARIANT TransferIsSum
CHECK_DEADLOCK FALSE
