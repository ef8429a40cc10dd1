SPECIFICATION Spec
CONSTANTS
  L = 2
  Wide = FALSE
  Emit = FALSE
INVARIANTS Ends Types Nested Same
CHECK_DEADLOCK FALSE
