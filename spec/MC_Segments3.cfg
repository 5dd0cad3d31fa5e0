INIT Init
NEXT Next
INVARIANTS Ends Stable
CHECK_DEADLOCK FALSE
CONSTANTS
  Order = 4
  Prim = 7
  MaxBytes = 3
