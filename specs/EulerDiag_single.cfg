SPECIFICATION DSpec
CONSTANTS
  RunSeqs <- OnceQuick
  Systems <- Systems1
  Layouts <- LayoutsSingle
  Pars <- ParsSome
  X0s <- X0One
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv DInv DExport
CHECK_DEADLOCK FALSE
