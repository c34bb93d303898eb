SPECIFICATION Spec
CONSTANTS
  Families <- All
  Doc <- Documented
  Alt <- Others
  Near = 2
INVARIANTS Sound Export
CHECK_DEADLOCK FALSE
