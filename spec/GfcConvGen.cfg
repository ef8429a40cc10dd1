SPECIFICATION Spec
CONSTANTS
  L = 3
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
