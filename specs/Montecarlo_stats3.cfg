SPECIFICATION Spec
CONSTANTS
  Uses = {"all", "even"}
  BinKinds = {"none"}
  Shapes <- ShapesA
  Sizes = {1, 2, 3}
  Patterns = {1, 4}
  Indices <- NoIdx
  MaxOps = 3
  MaxViews = 0
INVARIANTS Inv Export
PROPERTIES BinsFixed RejectedChangesNothing
CHECK_DEADLOCK FALSE
