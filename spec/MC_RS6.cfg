INIT Init
NEXT Next
INVARIANT Decides
CHECK_DEADLOCK FALSE
CONSTANTS
  Order = 8
  Prim = 11
  Length = 6
  NPar = 4
