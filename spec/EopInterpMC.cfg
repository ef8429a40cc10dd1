SPECIFICATION Spec
CONSTANTS
  N = 3
  Emit = FALSE
INVARIANTS RegularisedOnce Untouched EnoughEntries
CHECK_DEADLOCK FALSE
