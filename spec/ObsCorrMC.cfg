SPECIFICATION Spec
CONSTANTS
  G = 3
  I = 3
  L = 2
  Emit = FALSE
INVARIANTS PathOnly Effect Counts NoSlip
CHECK_DEADLOCK FALSE
