INIT Init
NEXT NextGroups
INVARIANTS Disjoint Few OnlyViable AllFound
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  MaxViable = 2
