INIT Init
NEXT Next
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxW = 17
  NumPics <- NoPics
  Pic <- NoPic
