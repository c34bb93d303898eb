SPECIFICATION Spec
CONSTANTS
  TimeArrays <- TimesA
  StepArrays <- StepsA
  Laws = {"zero", "half", "minus", "step", "linear"}
  Kinds = {"odd", "even"}
  MaxPaths = 6
  MaxCalls = 1
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
