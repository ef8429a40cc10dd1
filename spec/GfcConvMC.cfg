SPECIFICATION Spec
CONSTANTS
  L = 4
  Emit = FALSE
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
