SPECIFICATION Spec
CONSTANTS
  RunSeqs <- OnceQuick
  Systems <- Systems1
  Layouts <- LayoutsSingle
  Pars <- ParsAll
  X0s <- X0One
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
