SPECIFICATION Spec
CONSTANTS
  Fams <- SomeFams
  ParsOf <- WithJumps
  Dts = {1}
  MaxSteps = 3
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
