SPECIFICATION Spec
CONSTANTS
  Big = TRUE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
