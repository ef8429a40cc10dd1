SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
