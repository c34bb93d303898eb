SPECIFICATION Spec
CONSTANTS
  Leaves <- LeavesTriples
  Unary = {"square"}
  Binary = {"mul", "max", "lt"}
  Ternary = {"clip", "fma"}
  InPlace = {}
  MaxOps = 1
  Chained = FALSE
INVARIANTS Inv Export
PROPERTIES OperandsKept
CONSTRAINT Constr
CHECK_DEADLOCK FALSE
