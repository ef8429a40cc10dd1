SPECIFICATION Spec
CONSTANTS
  Step = 100
INVARIANTS Range Nested Monotone Round FlatOblate
CHECK_DEADLOCK FALSE
