SPECIFICATION Spec
CONSTANTS
  Ids = {"AAAA", "AAAB", "BAAA"}
  Emit = TRUE
INVARIANTS EmitBeh
CHECK_DEADLOCK FALSE
