INIT Init
NEXT Next
INVARIANT NothingNew
CHECK_DEADLOCK FALSE
CONSTANTS
  Region = {1, 2, 3, 4}
  MaxLen = 4
