SPECIFICATION Spec
CONSTANTS
  RunSeqs <- OnceQuick
  Systems <- SystemsBad
  Layouts <- LayoutsBad
  Pars <- ParsFew
  X0s <- X0One
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
