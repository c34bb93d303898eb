SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesA
  Shapes <- ShapesA
  Paths <- PathsA
  Patterns = {1, 2}
  Stats <- StatsA
  Ddofs = {0, 1, 2}
  Exps <- ExpsA
  Chfs <- ChfsA
  Cdfs <- CdfsA
  MaxOps = 1
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
