SPECIFICATION Spec
CONSTANTS
  L = 6
  Ws = {1}
  Ks = {0}
  Zs = {0}
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
