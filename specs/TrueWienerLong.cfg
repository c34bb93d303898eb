SPECIFICATION SpecLong
CONSTANTS
  MaxQueries = 40
  Times = {}
  Laws = {"zero", "half", "minus"}
  Origins = {0, 1}
INVARIANTS ExportLong
CHECK_DEADLOCK FALSE
