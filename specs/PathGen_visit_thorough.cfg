SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 0
  MaxBad = 0
  MaxPoint = 5
  Depths = {2, 3, 4, 5, 6, 7}
  Counts = {0, 1, 2, 3, 4, 5, 7}
  Unit = 12
  Pool <- PoolVisitBig
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
