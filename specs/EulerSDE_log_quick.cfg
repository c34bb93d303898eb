SPECIFICATION Spec
CONSTANTS
  RunSeqs <- OnceQuick
  Systems <- SystemsAll
  Layouts <- LayoutsLog
  Pars <- ParsFew
  X0s <- X0Log
  Logs = {TRUE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
