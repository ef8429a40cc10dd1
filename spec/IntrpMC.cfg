SPECIFICATION MCSpec
CONSTANTS
  MaxN = 4
  Ys = {0, 1, 4}
  Gaps = {1, 2, 5}
  Emit = TRUE
INVARIANTS ScanRight Nodes Outside Between Reproduces EmitBeh
CHECK_DEADLOCK FALSE
