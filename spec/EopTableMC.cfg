SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  MaxLen = 2
  Vals = {1, 2}
  N = 5
  Emit = FALSE
INVARIANTS OneOwner NoLeak LiveOwns Fits
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
