SPECIFICATION Spec
CONSTANTS
  Families <- All
  Values <- Some
INVARIANTS Sound Export
CHECK_DEADLOCK FALSE
