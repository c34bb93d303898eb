SPECIFICATION Spec
CONSTANTS
  RunSeqs <- RunsTwo
  Systems <- SystemsRuns
  Layouts <- LayoutsRuns
  Pars <- ParsSome
  X0s <- X0Runs
  Logs = {TRUE, FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
