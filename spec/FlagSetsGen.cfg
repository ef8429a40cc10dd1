SPECIFICATION MCSpec
CONSTANTS
  EF = {0, 7}
  SF = {4, 11}
  PV = {0, 255}
  N = 3
  Emit = TRUE
INVARIANTS TypeOK EmitBeh
CHECK_DEADLOCK FALSE
