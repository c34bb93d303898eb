SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 3
  MaxBad = 1
  MaxPoint = 3
  Depths = {2, 3, 4, 5, 6}
  Counts = {3}
  Unit = 12
  Pool <- PoolAdapt
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
