SPECIFICATION MCSpec
CONSTANTS
  MaxNfe = 12
  N = 5
  Emit = TRUE
  Times = {0, 1, 2, 3, 4}
  Rels <- One
  Abss <- One
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
