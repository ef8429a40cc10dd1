SPECIFICATION Spec
CONSTANTS
  Before <- Lt
  T = 3
  N = 3
  Emit = FALSE
INVARIANTS Right Cover
CHECK_DEADLOCK FALSE
