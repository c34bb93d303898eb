SPECIFICATION Spec
CONSTANTS
  RunSeqs <- OnceMore
  Systems <- Systems1
  Layouts <- LayoutsSingle
  Pars <- ParsAll
  X0s <- X0All
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
