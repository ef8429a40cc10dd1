SPECIFICATION Spec
CONSTANTS
  Dim = 3
  H = 3
  Emit = FALSE
INVARIANTS Values Last
PROPERTY Alone
CHECK_DEADLOCK FALSE
