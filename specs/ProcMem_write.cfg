SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesB
  TIdx <- TIdxB
  VIdx <- VIdxB
  PIdx <- PIdxB
  XIdx <- XIdxB
  Lists <- ListsB
  Targets <- TargetsB
  Ops <- Everything
  MaxOps = 2
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
