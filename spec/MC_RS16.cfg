INIT Init
NEXT Next
INVARIANT Decides
CHECK_DEADLOCK FALSE
CONSTANTS
  Order = 16
  Prim = 19
  Length = 5
  NPar = 4
