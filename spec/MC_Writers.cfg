SPECIFICATION Spec
INVARIANTS Prefix OkMeansAll FaultSurfaces
PROPERTIES Ends Refines
CHECK_DEADLOCK FALSE
CONSTANTS
  Total = 7
  MaxInterrupts = 3
