SPECIFICATION Spec
CONSTANTS
  RunSeqs <- RunsBig
  Systems <- SystemsBig
  Layouts <- LayoutsBig
  Pars <- ParsLong
  X0s <- X0One
  Logs = {TRUE, FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
