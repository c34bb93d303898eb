SPECIFICATION Spec
CONSTANTS
  RunSeqs <- RunsLong
  Systems <- SystemsLong
  Layouts <- LayoutsLong2
  Pars <- ParsLong
  X0s <- X0One
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
