SPECIFICATION Spec
CONSTANTS
  Origin = 1
  Z0 = 2
  Times <- TimesB
  Outcomes <- OutB
  MaxQueries = 7
INVARIANTS Inv Export
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
