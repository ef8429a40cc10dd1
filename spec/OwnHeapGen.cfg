SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  MaxLen = 2
  Vals = {1, 2}
  N = 3
  Emit = TRUE
INVARIANTS OneOwner NoLeak LiveOwns EmitBeh
CHECK_DEADLOCK FALSE
