SPECIFICATION Spec
CONSTANTS
  Uses = {"all"}
  BinKinds = {"none", "four", "explicit2"}
  Shapes <- ShapesC
  Sizes = {3}
  Patterns = {2, 4, 0}
  Indices <- IdxA
  MaxOps = 3
  MaxViews = 2
INVARIANTS Inv Export
PROPERTIES BinsFixed RejectedChangesNothing
CHECK_DEADLOCK FALSE
