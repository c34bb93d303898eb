SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 0
  MaxBad = 0
  MaxPoint = 3
  Depths = {2, 3, 4, 5, 6}
  Counts = {0, 1, 2, 4, 5}
  Unit = 12
  Pool <- PoolVisit
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
