SPECIFICATION Spec
CONSTANTS
  Names <- N3
  Places <- P4
  MaxOps = 6
  MaxObjs = 2
  MaxNews = 4
  Decls <- OneHist
  Givens <- GivensHist
INVARIANTS Inv Export
CHECK_DEADLOCK FALSE
