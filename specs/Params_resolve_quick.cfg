SPECIFICATION Spec
CONSTANTS
  Names <- N3
  Places <- P4
  MaxOps = 2
  MaxObjs = 1
  MaxNews = 1
  Decls <- OneQuick
  Givens <- GivensAll
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
