SPECIFICATION Spec
CONSTANTS
  N = 3
  Bs = {1, 2}
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
