SPECIFICATION Spec
CONSTANTS
  Targets = {"a", "d", "n"}
  MaxCalls = 3
  Emit = FALSE
INVARIANTS DoneInv NoPartial
PROPERTY Always
CHECK_DEADLOCK FALSE
