SPECIFICATION Spec
CONSTANTS
  MaxAdapt = 0
  MaxBad = 0
  MaxPoint = 3
  Depths = {2, 3}
  NRuns = 2
  Unit = 12
  Specs <- SomeSpecs
  Bad = TRUE
INVARIANTS RInv Repeatable Export
CHECK_DEADLOCK FALSE
