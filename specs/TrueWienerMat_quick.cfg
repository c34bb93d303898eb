SPECIFICATION Spec
CONSTANTS
  MaxQueries = 3
  Times <- TimesA
  Laws = {"const", "turn", "linear"}
  Origins = {0, 1}
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
