SPECIFICATION Spec
CONSTANTS
  Args = {"none", "a", "b"}
  SourceArgs = {"none", "a", "b"}
  MaxOps = 5
  MaxObjs = 2
INVARIANTS Inv Export
PROPERTIES Bound
CHECK_DEADLOCK FALSE
