INIT InitShades
NEXT NextShades
INVARIANTS NoSharing Known OneEach Bounded Kept Agree
CHECK_DEADLOCK FALSE
CONSTANTS
  Region = {1, 2, 3, 4, 5}
  NumShades = 3
