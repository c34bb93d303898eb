SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesS
  Shapes <- ShapesS
  Modes = {"no"}
  Kinds <- KindsS
  Queries <- QueriesW
  Deltas <- DeltasW
  NewTimes <- NoTimes
  Polys = {1, 2, 3}
  MaxOps = 3
  Writes = TRUE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
