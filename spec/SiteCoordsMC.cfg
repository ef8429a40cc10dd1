SPECIFICATION Spec
CONSTANTS
  Ids = {"AAAA", "AAAB", "BAAA"}
  Emit = FALSE
INVARIANTS Right Own
CHECK_DEADLOCK FALSE
