SPECIFICATION SpecJumps
CONSTANTS
  Dists = {}
  Pool <- NoPool
  Maps = {}
  MaxMaps = 0
  Times = {}
  Users = {}
  Corrs <- AllCorrs
  Lams <- SomeLams
INVARIANTS NInv Export
CHECK_DEADLOCK FALSE
