SPECIFICATION Spec
CONSTANTS
  N = 3
  Nps = {0, 1, 2}
  Nss = {0, 1, 2}
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
