SPECIFICATION GenSpec
CONSTANTS
  H = 3
  Emit = TRUE
  EccSet = {1}
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
