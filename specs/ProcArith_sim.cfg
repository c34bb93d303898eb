SPECIFICATION Spec
CONSTANTS
  Leaves <- LeavesChains
  Unary = {"neg"}
  Binary = {"sub"}
  Ternary = {"clip"}
  InPlace = {"add"}
  MaxOps = 4
  Chained = TRUE
INVARIANTS Inv Export
PROPERTIES OperandsKept
CONSTRAINT Constr
CHECK_DEADLOCK FALSE
