SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesB
  TIdx <- TIdxB
  VIdx <- VIdxB
  PIdx <- PIdxB
  XIdx <- XIdxB
  Lists <- ListsB
  Targets <- TargetsB
  Ops <- Everything
  MaxOps = 3
INVARIANTS Inv Export
PROPERTIES Seen
CHECK_DEADLOCK FALSE
