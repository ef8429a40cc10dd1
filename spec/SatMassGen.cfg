SPECIFICATION MCSpec
CONSTANTS
  N = 2
  Emit = TRUE
INVARIANTS Right EmitBeh
CHECK_DEADLOCK FALSE
