SPECIFICATION Spec
CONSTANTS
  RunSeqs <- TimesFault
  Systems <- SystemsFault
  Layouts <- LayoutsFault
  Pars <- ParsFew
  X0s <- X0One
  Logs = {FALSE}
  Faults <- FaultsAll
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
