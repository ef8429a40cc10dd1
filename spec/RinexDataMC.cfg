SPECIFICATION Spec
CONSTANTS
  N = 5
  Ms = {1, 5, 6, 11}
  Emit = FALSE
INVARIANTS Agree Tiled Own EmitBeh
PROPERTY Ends
CHECK_DEADLOCK FALSE
