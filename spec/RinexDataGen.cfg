SPECIFICATION Spec
CONSTANTS
  N = 4
  Ms = {1, 5, 6, 11}
  Emit = TRUE
INVARIANTS Agree Tiled Own EmitBeh
CHECK_DEADLOCK FALSE
