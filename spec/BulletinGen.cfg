SPECIFICATION Spec
CONSTANTS
  K = 3
  W = 3
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
