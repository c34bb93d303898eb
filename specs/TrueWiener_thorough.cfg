SPECIFICATION Spec
CONSTANTS
  MaxQueries = 5
  Times <- TimesC
  Laws = {"zero", "half", "minus", "step"}
  Origins = {0}
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
