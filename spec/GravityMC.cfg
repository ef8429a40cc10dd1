SPECIFICATION MSpec
CONSTANTS
  N = 4
  C = {0, 1, 2, 3, 4}
  H = 1
  Emit = FALSE
INVARIANTS LawsHold
PROPERTIES UseIsPure
CHECK_DEADLOCK FALSE
