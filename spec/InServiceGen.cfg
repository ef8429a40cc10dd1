SPECIFICATION Spec
CONSTANTS
  Before <- Lt
  T = 3
  N = 2
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
