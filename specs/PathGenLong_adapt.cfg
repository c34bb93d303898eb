SPECIFICATION LSpec
CONSTANTS
  MaxAdapt = 99999
  MaxBad = 0
  Depths = {2, 4}
  Everies = {2, 3, 7}
INVARIANTS AtTheEnd LExport
CHECK_DEADLOCK FALSE
