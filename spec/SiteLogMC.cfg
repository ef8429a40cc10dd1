SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
