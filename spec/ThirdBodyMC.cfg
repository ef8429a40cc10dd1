SPECIFICATION Spec
CONSTANTS
  N = 2
  L = 3
  Emit = FALSE
INVARIANTS Own
CHECK_DEADLOCK FALSE
