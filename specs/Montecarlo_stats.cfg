SPECIFICATION Spec
CONSTANTS
  Uses = {"all", "even", "odd"}
  BinKinds = {"none"}
  Shapes <- ShapesA
  Sizes = {1, 2, 3, 4}
  Patterns <- PatternsA
  Indices <- NoIdx
  MaxOps = 2
  MaxViews = 0
INVARIANTS Inv Export
PROPERTIES BinsFixed RejectedChangesNothing
CHECK_DEADLOCK FALSE
