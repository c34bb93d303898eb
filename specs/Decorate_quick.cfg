SPECIFICATION Spec
CONSTANTS
  Big = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
