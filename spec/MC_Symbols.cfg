SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS
  Order = 256
  Prim = 285
  NumCases <- Syms
  CaseGrid <- SymGrid
  CaseSize <- SymSize
  Zig <- SymZig
