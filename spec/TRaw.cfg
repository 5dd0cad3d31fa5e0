SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Order = 256
  Prim = 285
  NumGrids <- TrGrids
  GridOf <- TrGrid
  SideOf <- TrSide
  Order0 <- TrOrder
