SPECIFICATION Spec
CONSTANTS
  TimeCfgs <- TimesQuick
  Seeds = {0, 1, 3}
  Layouts <- LayoutsQuick
  Big = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
