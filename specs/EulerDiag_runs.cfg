SPECIFICATION DSpec
CONSTANTS
  RunSeqs <- RunsTwo
  Systems <- SystemsRuns
  Layouts <- LayoutsRuns
  Pars <- ParsSome
  X0s <- X0One
  Logs = {FALSE}
  Faults <- NoFault
INVARIANTS Inv DInv DExport
CHECK_DEADLOCK FALSE
