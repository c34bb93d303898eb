SPECIFICATION SpecSize
CONSTANTS
  TimeCfgs <- TimesBig
  Seeds = {0, 1, 3}
  Layouts <- LayoutsBig
  Big = FALSE
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
