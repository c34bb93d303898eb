SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesA
  TIdx <- TIdxA
  VIdx <- VIdxA
  PIdx <- PIdxA
  XIdx <- XIdxA
  Lists <- ListsA
  Targets <- TargetsA
  Ops <- Derive
  MaxOps = 2
INVARIANTS Inv Export
PROPERTIES Seen
CHECK_DEADLOCK FALSE
