INIT Init
NEXT Next
INVARIANTS BrightIsWhite Bounded EdgeIsBlack
CHECK_DEADLOCK FALSE
CONSTANTS
  Greys = {0, 1, 2, 100, 254, 255}
  W = 3
  H = 2
  WindowOf = 2
  NumGreys <- OnePic
  Grey <- Nothing
  GWidth <- PicW
  GHeight <- PicH
