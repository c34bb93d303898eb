SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesQuick
  Timelines <- TlQuick
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
