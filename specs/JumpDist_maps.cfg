SPECIFICATION Spec
CONSTANTS
  Dists = {"norm", "exp"}
  Pool <- PoolA
  Maps = {"2*z+1", "t*z", "s+z"}
  MaxMaps = 2
  Times = {0, 1, 2}
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
