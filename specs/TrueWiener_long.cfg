SPECIFICATION Spec
CONSTANTS
  MaxQueries = 7
  Times <- TimesC
  Laws = {"zero", "half", "minus"}
  Origins = {0}
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
