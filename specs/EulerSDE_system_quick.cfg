SPECIFICATION Spec
CONSTANTS
  RunSeqs <- OnceQuick
  Systems <- SystemsAll
  Layouts <- LayoutsSystems
  Pars <- ParsFew
  X0s <- X0All
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
