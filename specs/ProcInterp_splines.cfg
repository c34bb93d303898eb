SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesA
  Shapes <- ShapesS
  Modes = {"no"}
  Kinds = {"default", "linear", "quadratic", "cubic"}
  Queries <- QueriesC
  Deltas <- DeltasA
  NewTimes <- NewA
  Polys = {1, 2, 3}
  MaxOps = 2
  Writes = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
