SPECIFICATION Spec
CONSTANTS
  Dim = 25
  H = 2
  Emit = TRUE
INVARIANTS Values Last EmitBeh
CHECK_DEADLOCK FALSE
