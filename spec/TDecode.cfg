SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Order = 256
  Prim = 285
  NumCases <- TrCases
  CaseGrid <- TrGrid
  CaseSize <- TrSize
  Zig <- TrZig
