SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesW
  Shapes <- ShapesS
  Modes = {"no", "mid", "forward"}
  Kinds <- KindsW
  Queries <- QueriesW
  Deltas <- DeltasW
  NewTimes <- NewW
  Polys = {0}
  MaxOps = 3
  Writes = TRUE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
