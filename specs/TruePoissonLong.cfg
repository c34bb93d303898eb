SPECIFICATION SpecLong
CONSTANTS
  Origin = 0
  Z0 = 3
  Times = {}
  Outcomes <- OutLong
  Split <- SplitLong
  MaxQueries = 160
INVARIANTS InvLong Export
CHECK_DEADLOCK FALSE
