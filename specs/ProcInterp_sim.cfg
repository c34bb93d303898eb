SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesA
  Shapes <- ShapesC
  Modes = {"no", "mid", "forward"}
  Kinds <- KindsC
  Queries <- QueriesC
  Deltas <- DeltasC
  NewTimes <- NewC
  Polys = {0}
  MaxOps = 4
  Writes = TRUE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
