SPECIFICATION Spec
CONSTANT Big = 1000
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
