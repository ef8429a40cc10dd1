SPECIFICATION Spec
CONSTANTS
  G = 2
  I = 2
  L = 3
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
