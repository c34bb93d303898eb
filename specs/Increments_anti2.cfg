SPECIFICATION Spec
CONSTANTS
  TimeArrays <- TimesA
  StepArrays <- StepsA
  Laws = {"linear"}
  Kinds = {"odd", "even"}
  MaxPaths = 4
  MaxCalls = 2
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
