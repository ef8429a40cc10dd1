SPECIFICATION Spec
CONSTANTS
  D = 4
  N = 3
  H = 2
  W = 2
  Emit = FALSE
INVARIANTS NoMemory Windows PosOk
VIEW View
CHECK_DEADLOCK FALSE
