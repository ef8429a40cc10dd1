SPECIFICATION Spec
CONSTANTS
  L = 5
  Ns = {1, 2, 3}
  Emit = FALSE
INVARIANTS Right Once Inside
CHECK_DEADLOCK FALSE
