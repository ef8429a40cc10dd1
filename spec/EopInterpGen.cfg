SPECIFICATION Spec
CONSTANTS
  N = 3
  Emit = TRUE
INVARIANTS RegularisedOnce Untouched EnoughEntries EmitBeh
CHECK_DEADLOCK FALSE
