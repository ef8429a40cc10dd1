SPECIFICATION Spec
CONSTANTS
  N = 2
  Nps = {0, 1, 2}
  Nss = {0, 1, 2}
  Emit = FALSE
INVARIANTS LayoutOK Sym Positive Own All Untouched EmitBeh
CHECK_DEADLOCK FALSE
