SPECIFICATION Spec
CONSTANTS
  Uses = {"all", "even"}
  BinKinds = {"none", "four", "explicit2"}
  Shapes <- ShapesD
  Sizes = {4}
  Patterns = {2, 4, 0}
  Indices <- IdxA
  MaxOps = 4
  MaxViews = 2
INVARIANTS Inv Export
PROPERTIES BinsFixed RejectedChangesNothing
CHECK_DEADLOCK FALSE
