SPECIFICATION MCSpec
CONSTANTS
  N = 3
  MaxDay = 3
  Emit = TRUE
INVARIANTS Sound Complete EmitBeh
CHECK_DEADLOCK FALSE
