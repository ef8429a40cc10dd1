SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
