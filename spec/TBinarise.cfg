SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  NumGreys <- TrGreys
  Grey <- TrGrey
  GWidth <- TrW
  GHeight <- TrH
