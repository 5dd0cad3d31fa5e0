INIT Init
NEXT Next
INVARIANTS BrightIsWhite Bounded EdgeIsBlack
CHECK_DEADLOCK FALSE
CONSTANTS
  Greys = {0, 90, 255}
  W = 3
  H = 3
  WindowOf = 3
  NumGreys <- OnePic
  Grey <- Nothing
  GWidth <- PicW
  GHeight <- PicH
