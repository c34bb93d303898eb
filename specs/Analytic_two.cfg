SPECIFICATION Spec
CONSTANTS
  Fams <- SomeFams
  ParsOf <- WithJumps
  Dts = {1, 2}
  MaxSteps = 2
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
