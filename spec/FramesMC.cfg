SPECIFICATION Spec
CONSTANTS
  H = 1
  Emit = FALSE
  Angs = {0, 1, 5, 9}
INVARIANTS Orthonormal Back Fixed
CHECK_DEADLOCK FALSE
