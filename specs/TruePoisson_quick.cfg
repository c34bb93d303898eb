SPECIFICATION Spec
CONSTANTS
  Origin = 0
  Z0 = 0
  Times <- TimesA
  Outcomes <- OutA
  MaxQueries = 4
INVARIANTS Inv Export
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
