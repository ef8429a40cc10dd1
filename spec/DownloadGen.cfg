SPECIFICATION Spec
CONSTANTS
  Targets = {"a"}
  MaxCalls = 2
  Emit = TRUE
INVARIANTS DoneInv NoPartial EmitBeh
CHECK_DEADLOCK FALSE
