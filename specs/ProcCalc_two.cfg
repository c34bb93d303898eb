SPECIFICATION Spec
CONSTANTS
  Timelines <- TimesB
  Shapes <- ShapesB
  Paths = {2}
  Patterns = {1, 3}
  Stats <- StatsA
  Ddofs = {0}
  Exps <- ExpsB
  Chfs <- ChfsB
  Cdfs <- CdfsB
  MaxOps = 2
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
