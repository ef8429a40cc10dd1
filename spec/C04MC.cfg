SPECIFICATION MCSpec
CONSTANTS
  N = 4
  MaxDay = 3
  Emit = FALSE
INVARIANTS Sound Complete NoOverrun FoldAgrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
