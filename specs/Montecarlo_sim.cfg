SPECIFICATION Spec
CONSTANTS
  Uses = {"all", "even", "odd"}
  BinKinds = {"none", "one", "four", "ranged", "root", "rootranged", "explicit", "explicit0", "explicit2"}
  Shapes <- ShapesB
  Sizes = {1, 2, 4}
  Patterns <- PatternsB
  Indices <- IdxA
  MaxOps = 6
  MaxViews = 2
INVARIANTS Inv Export
PROPERTIES BinsFixed RejectedChangesNothing
CHECK_DEADLOCK FALSE
