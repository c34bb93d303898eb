SPECIFICATION Spec
CONSTANTS
  RunSeqs <- RunsLong
  Systems <- SystemsLong
  Layouts <- LayoutsLong
  Pars <- ParsLong
  X0s <- X0One
  Logs = {TRUE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
