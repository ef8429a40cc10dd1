SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Emit = FALSE
INVARIANTS Once
PROPERTY Step
CHECK_DEADLOCK FALSE
