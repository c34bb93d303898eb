SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 0
  MaxBad = 0
  MaxPoint = 4
  Depths = {2, 3, 4}
  NRuns = 2
  Unit = 12
  Specs <- AllSpecs
  Bad = TRUE
INVARIANTS RInv Repeatable Export
CHECK_DEADLOCK FALSE
