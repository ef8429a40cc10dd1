SPECIFICATION MCSpec
CONSTANTS
  N = 3
  Emit = TRUE
INVARIANTS HTypeOK OkIsComplete FoldAgrees Commutes EmitBeh
PROPERTY NoResurrection
CHECK_DEADLOCK FALSE
