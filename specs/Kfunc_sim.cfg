SPECIFICATION Spec
CONSTANTS
  Kinds = {"class", "mand", "func", "funcmand", "free", "two", "one"}
  ParamSets <- ParB
  VarSets <- VarB
  MaxOps = 7
INVARIANTS Inv Export
PROPERTIES Kept
CHECK_DEADLOCK FALSE
