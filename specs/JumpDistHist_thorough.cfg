SPECIFICATION HSpec
CONSTANTS
  Dists = {"norm", "uniform", "exp", "double_exp"}
  Pool <- PoolH
  Revisions <- RevH
  Maps = {"2*z+1", "t*z"}
  MaxMaps = 1
  Times = {1, 2}
  MaxLog = 5
INVARIANTS Stable HExport
CHECK_DEADLOCK FALSE
