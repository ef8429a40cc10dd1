SPECIFICATION Spec
CONSTANTS
  D = 6
  N = 6
  H = 3
  Emit = FALSE
INVARIANTS NoMemory AllSlots
VIEW View
CHECK_DEADLOCK FALSE
