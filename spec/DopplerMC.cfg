SPECIFICATION Spec
CONSTANTS
  N = 3
  Bs = {1, 2}
  Emit = FALSE
INVARIANTS Right Sound Whole
CHECK_DEADLOCK FALSE
