SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  QueryArrays <- Blocks
  IncArrays <- BlockIncs
  Vias = {0, 1, 3}
  Tols = {0, 1}
  Origins = {0, 1}
INVARIANTS Sorted OriginKnown Distinct Export
PROPERTIES Grows
CHECK_DEADLOCK FALSE
