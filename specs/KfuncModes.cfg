SPECIFICATION Spec
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
