INIT Init
NEXT NextGroups
INVARIANTS Disjoint Few OnlyViable AllFound
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 6
  MaxViable = 2
