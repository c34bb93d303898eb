SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesA
  Shapes <- ShapesA
  Modes = {"no"}
  Kinds <- KindsA
  Queries <- QueriesA
  Deltas <- DeltasA
  NewTimes <- NewA
  Polys = {0}
  MaxOps = 1
  Writes = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
