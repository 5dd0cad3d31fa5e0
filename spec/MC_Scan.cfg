INIT Init
NEXT Next
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxW = 12
  NumPics <- NoPics
  Pic <- NoPic
