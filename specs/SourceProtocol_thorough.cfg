SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesMore
  Timelines <- TlMore
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
