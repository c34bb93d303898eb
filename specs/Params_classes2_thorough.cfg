SPECIFICATION Spec
CONSTANTS
  Names <- N3
  Places <- P4
  MaxOps = 4
  MaxObjs = 2
  MaxNews = 4
  Decls <- Two
  Givens <- GivensTwo
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
