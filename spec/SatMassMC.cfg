SPECIFICATION MCSpec
CONSTANTS
  N = 3
  Emit = FALSE
INVARIANTS Right FoldAgrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
