INIT Init
NEXT Next
INVARIANTS BrightIsWhite Bounded EdgeIsBlack
CHECK_DEADLOCK FALSE
CONSTANTS
  Greys = {0, 1, 2, 100, 254, 255}
  W = 6
  H = 1
  WindowOf = 5
  NumGreys <- OnePic
  Grey <- Nothing
  GWidth <- PicW
  GHeight <- PicH
