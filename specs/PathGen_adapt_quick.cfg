SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 2
  MaxBad = 1
  MaxPoint = 2
  Depths = {2, 3, 4, 5}
  Counts = {3}
  Unit = 12
  Pool <- PoolAdapt
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
