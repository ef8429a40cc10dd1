SPECIFICATION Spec
CONSTANTS
  L = 1
  Wide = TRUE
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
