SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  QueryArrays <- ArraysQuick
  IncArrays <- IncsQuick
  Vias = {0, 1}
  Tols = {0, 1}
  Origins = {0}
INVARIANTS Inv Export
PROPERTIES Grows
CHECK_DEADLOCK FALSE
