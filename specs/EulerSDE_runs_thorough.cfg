SPECIFICATION Spec
CONSTANTS
  RunSeqs <- RunsThree
  Systems <- SystemsRuns
  Layouts <- LayoutsRuns
  Pars <- ParsSome
  X0s <- X0Runs
  Logs = {TRUE, FALSE}
  Faults <- NoFault
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
