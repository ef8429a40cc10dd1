SPECIFICATION Spec
CONSTANTS
  Angs = {0, 1, 5}
INVARIANTS Derivative Symmetric Body Sides
CHECK_DEADLOCK FALSE
