SPECIFICATION MCSpec
CONSTANTS
  N = 4
  W = 3
  Q = 2
  T = 4
  Emit = FALSE
INVARIANTS Right Window EmitBeh
CHECK_DEADLOCK FALSE
