SPECIFICATION DSpec
CONSTANTS
  RunSeqs <- OnceQuick
  Systems <- SystemsAll
  Layouts <- LayoutsSystems
  Pars <- ParsFew
  X0s <- X0One
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv DInv DExport
CHECK_DEADLOCK FALSE
