SPECIFICATION Spec
CONSTANTS
  D = 8
  N = 9
  H = 9
  Emit = TRUE
INVARIANTS NoMemory AllSlots EmitBeh
CHECK_DEADLOCK FALSE
