SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  QueryArrays <- ArraysMore
  IncArrays <- IncsMore
  Vias = {0, 1, 2, 3, 4}
  Tols = {0, 1}
  Origins = {0, 1}
INVARIANTS Inv Export
PROPERTIES Grows
CHECK_DEADLOCK FALSE
