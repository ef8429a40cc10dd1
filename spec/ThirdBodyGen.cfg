SPECIFICATION Spec
CONSTANTS
  N = 2
  L = 3
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
