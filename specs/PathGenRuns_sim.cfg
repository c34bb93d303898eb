SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 2
  MaxBad = 1
  MaxPoint = 3
  Depths = {2, 3, 4}
  NRuns = 3
  Unit = 12
  Specs <- SomeSpecs
  Bad = TRUE
INVARIANTS RInv Repeatable Export
CHECK_DEADLOCK FALSE
