SPECIFICATION Spec
CONSTANTS
  Origin = 2
  Z0 = 5
  Times <- TimesB
  Outcomes <- OutB
  MaxQueries = 3
INVARIANTS Inv Export
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
