SPECIFICATION MSpec
CONSTANTS
  N = 4
  C = {1}
  H = 4
  Emit = TRUE
INVARIANTS Beh
PROPERTIES UseIsPure
CHECK_DEADLOCK FALSE
