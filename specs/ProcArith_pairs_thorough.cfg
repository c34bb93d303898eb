SPECIFICATION Spec
CONSTANTS
  Leaves <- LeavesPairs
  Unary = {"neg"}
  Binary = {"sub"}
  Ternary = {}
  InPlace = {"add"}
  MaxOps = 1
  Chained = FALSE
INVARIANTS Inv Export
PROPERTIES OperandsKept
CONSTRAINT Constr
CHECK_DEADLOCK FALSE
