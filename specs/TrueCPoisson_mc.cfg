SPECIFICATION Spec
CONSTANTS
  Times <- TimesA
  MaxKnown = 4
  MaxEvents = 1
INVARIANTS Conserved NoDuplicates
PROPERTIES Immutable DrawnOnce
CHECK_DEADLOCK FALSE
