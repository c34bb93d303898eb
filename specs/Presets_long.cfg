SPECIFICATION SpecSize
CONSTANTS
  TimeCfgs <- TimesLong
  Seeds = {0, 1, 3}
  Layouts <- LayoutsLong
  Big = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
