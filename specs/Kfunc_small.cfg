SPECIFICATION Spec
CONSTANTS
  Kinds = {"class", "mand", "func", "funcmand", "free", "two", "one"}
  ParamSets <- ParB
  VarSets <- VarB
  MaxOps = 2
INVARIANTS Inv Export
PROPERTIES Kept
CHECK_DEADLOCK FALSE
