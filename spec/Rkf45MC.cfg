SPECIFICATION MCSpec
CONSTANTS
  MaxNfe = 12
  N = 3
  Emit = FALSE
  Times = {0, 1, 2}
  Rels <- Signs
  Abss <- Signs
INVARIANTS RTypeOK WorkBound EmitBeh
PROPERTIES FinalIsFinal NoEvalWhenRefused
VIEW View
CHECK_DEADLOCK FALSE
