SPECIFICATION Spec
CONSTANTS
  D = 7
  N = 8
  H = 8
  W = 4
  Emit = TRUE
INVARIANTS NoMemory Windows PosOk EmitBeh
CHECK_DEADLOCK FALSE
