SPECIFICATION Spec
CONSTANTS
  Kinds = {"class", "mand", "func", "funcmand", "free", "two", "one"}
  ParamSets <- ParA
  VarSets <- VarA
  MaxOps = 3
INVARIANTS Inv Export
PROPERTIES Kept
CHECK_DEADLOCK FALSE
