SPECIFICATION Spec
CONSTANTS
  N = 4
  Emit = TRUE
INVARIANTS AllOrNothing OwnLine OrderFree EmitBeh
CHECK_DEADLOCK FALSE
