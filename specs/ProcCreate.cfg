SPECIFICATION Spec
CONSTANTS
  TShapes <- TS
  XShapes <- XS
  VShapes <- VS
  CShapes <- CS
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
