SPECIFICATION FairSpec
CONSTANTS
  MaxNfe = 12
  N = 2
  Emit = FALSE
  Times = {0, 1}
  Rels <- One
  Abss <- One
INVARIANTS RTypeOK
PROPERTIES Ends
CHECK_DEADLOCK FALSE
