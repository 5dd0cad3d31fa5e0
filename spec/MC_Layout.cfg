INIT Init
NEXT Next
INVARIANTS EachOnce FormatApart BlocksAdd
CHECK_DEADLOCK FALSE
