SPECIFICATION MCSpec
CONSTANTS
  EF = {0, 3, 7}
  SF = {0, 5, 11}
  PV = {0, 1, 255}
  N = 5
  Emit = FALSE
INVARIANTS TypeOK EqualIsSymmetric EmitBeh
PROPERTY SetThenTest
VIEW View
CHECK_DEADLOCK FALSE
