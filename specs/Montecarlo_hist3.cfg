SPECIFICATION Spec
CONSTANTS
  Uses = {"all", "odd"}
  BinKinds = {"one", "four", "ranged", "explicit", "explicit0"}
  Shapes <- ShapesA
  Sizes = {2, 3}
  Patterns = {1, 4}
  Indices <- NoIdx
  MaxOps = 3
  MaxViews = 0
INVARIANTS Inv Export
PROPERTIES BinsFixed RejectedChangesNothing
CHECK_DEADLOCK FALSE
