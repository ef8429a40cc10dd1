SPECIFICATION Spec
CONSTANTS
  L = 4
  Ns = {1, 2, 3}
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
