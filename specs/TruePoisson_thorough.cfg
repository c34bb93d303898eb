SPECIFICATION Spec
CONSTANTS
  Origin = 0
  Z0 = 3
  Times <- TimesB
  Outcomes <- OutB
  MaxQueries = 4
INVARIANTS Inv Export
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
