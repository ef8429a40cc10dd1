SPECIFICATION MCSpec
CONSTANTS
  N = 3
  W = 3
  Q = 2
  T = 3
  Emit = TRUE
INVARIANTS Right Window EmitBeh
CHECK_DEADLOCK FALSE
