SPECIFICATION Spec
CONSTANTS
  Names <- N3
  Places <- P4
  MaxOps = 3
  MaxObjs = 3
  MaxNews = 4
  Decls <- Three
  Givens <- GivensTwo
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
