SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesB
  Shapes <- ShapesA
  Modes = {"mid", "forward", "backward"}
  Kinds <- KindsC
  Queries <- QueriesB
  Deltas <- DeltasA
  NewTimes <- NewA
  Polys = {0}
  MaxOps = 1
  Writes = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
