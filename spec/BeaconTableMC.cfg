SPECIFICATION Spec
CONSTANTS
  N = 3
  Chars = {"a", "b"}
INVARIANTS Agrees Inverse NeverAnother
PROPERTY Ends
CHECK_DEADLOCK FALSE
