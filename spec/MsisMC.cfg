SPECIFICATION Spec
CONSTANTS
  Inst = {1, 2}
  H = 2
  Emit = TRUE
  Skipped = {}
INVARIANTS Fresh EmitBeh
CHECK_DEADLOCK FALSE
