SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesBig
  TIdx <- TIdxA
  VIdx <- VIdxA
  PIdx <- PIdxA
  XIdx <- XIdxA
  Lists <- ListsA
  Targets <- TargetsA
  Ops <- Derive
  MaxOps = 1
INVARIANTS Inv Export
PROPERTIES Seen
CHECK_DEADLOCK FALSE
