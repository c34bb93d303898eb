SPECIFICATION Spec
CONSTANTS
  TimeArrays <- TimesA
  StepArrays <- StepsA
  Laws = {"zero", "linear"}
  Kinds = {"plain"}
  MaxPaths = 1
  MaxCalls = 2
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
