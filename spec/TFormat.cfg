SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  NumReads <- TrReads
  Word1 <- TrW1
  Word2 <- TrW2
