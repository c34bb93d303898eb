SPECIFICATION Spec
CONSTANTS
  TimeArrays <- TimesB
  StepArrays <- StepsB
  Laws = {"zero", "half", "minus", "step", "linear"}
  Kinds = {"plain"}
  MaxPaths = 2
  MaxCalls = 1
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
