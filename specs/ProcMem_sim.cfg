SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesA
  TIdx <- TIdxA
  VIdx <- VIdxA
  PIdx <- PIdxA
  XIdx <- XIdxA
  Lists <- ListsA
  Targets <- TargetsA
  Ops <- Everything
  MaxOps = 6
INVARIANTS Inv Export
PROPERTIES Seen
CHECK_DEADLOCK FALSE
