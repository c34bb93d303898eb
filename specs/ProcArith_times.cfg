SPECIFICATION Spec
CONSTANTS
  Leaves <- LeavesTimes
  Unary = {}
  Binary = {"sub"}
  Ternary = {}
  InPlace = {"add"}
  MaxOps = 1
  Chained = FALSE
INVARIANTS Inv Export
PROPERTIES OperandsKept
CONSTRAINT Constr
CHECK_DEADLOCK FALSE
