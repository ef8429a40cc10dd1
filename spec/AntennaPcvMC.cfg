SPECIFICATION Spec
CONSTANTS
  Step = 250
  Emit = TRUE
INVARIANTS Agree Nodes Between EmitBeh
PROPERTY Ends
CHECK_DEADLOCK FALSE
