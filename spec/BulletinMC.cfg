SPECIFICATION Spec
CONSTANTS
  K = 3
  W = 3
  Emit = FALSE
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
