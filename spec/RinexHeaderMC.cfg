SPECIFICATION Spec
CONSTANTS
  N = 5
  Emit = FALSE
INVARIANTS AllOrNothing OwnLine OrderFree EmitBeh
CHECK_DEADLOCK FALSE
