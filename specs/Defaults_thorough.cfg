SPECIFICATION Spec
CONSTANTS
  Families <- All
  Doc <- Documented
  Alt <- Others
  Near = 3
INVARIANTS Sound Export
CHECK_DEADLOCK FALSE
