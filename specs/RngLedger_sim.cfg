SPECIFICATION Spec
CONSTANTS
  Args = {"none", "a", "b"}
  SourceArgs = {"none", "a", "b"}
  MaxOps = 12
  MaxObjs = 5
INVARIANTS Inv Export
PROPERTIES Bound
CHECK_DEADLOCK FALSE
