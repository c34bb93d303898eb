SPECIFICATION Spec
CONSTANTS
  MaxQueries = 4
  Times <- TimesA
  Laws = {"zero", "half", "minus", "step", "linear"}
  Origins = {0}
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
