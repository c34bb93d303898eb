SPECIFICATION Spec
CONSTANTS
  TimeCfgs <- TimesMore
  Seeds = {0, 1, 2, 3, 4, 5}
  Layouts <- LayoutsMore
  Big = TRUE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
