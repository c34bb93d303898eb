SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  QueryArrays <- ArraysMore
  IncArrays <- IncsMore
  Vias = {0}
  Tols = {0, 1}
  Origins = {0}
INVARIANTS Inv Export
PROPERTIES Grows
CHECK_DEADLOCK FALSE
