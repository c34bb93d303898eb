SPECIFICATION Spec
CONSTANTS
  MaxQueries = 4
  Times <- TimesB
  Laws = {"zero", "half", "minus", "linear"}
  Origins = {1}
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
