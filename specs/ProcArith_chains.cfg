SPECIFICATION Spec
CONSTANTS
  Leaves <- LeavesChains
  Unary = {}
  Binary = {"sub"}
  Ternary = {}
  InPlace = {"add"}
  MaxOps = 2
  Chained = TRUE
INVARIANTS Inv Export
PROPERTIES OperandsKept
CONSTRAINT Constr
CHECK_DEADLOCK FALSE
