SPECIFICATION Spec
CONSTANTS
  Times <- TimesA
  MaxKnown = 3
  MaxEvents = 2
INVARIANTS Conserved NoDuplicates
PROPERTIES Immutable DrawnOnce
CHECK_DEADLOCK FALSE
