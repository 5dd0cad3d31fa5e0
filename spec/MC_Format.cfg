INIT Init
NEXT Next
INVARIANTS Unique Tolerates
CHECK_DEADLOCK FALSE
CONSTANTS
  NumReads <- NoReads
  Word1 <- None
  Word2 <- None
