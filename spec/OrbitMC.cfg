SPECIFICATION Spec
CONSTANTS
  H = 1
  Emit = FALSE
  EccSet = {0, 1, 4}
INVARIANTS Orthonormal Distance Energy Momentum
CHECK_DEADLOCK FALSE
