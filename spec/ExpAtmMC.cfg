SPECIFICATION Spec
CONSTANTS
  Top = 1500000
  Step = 500
INVARIANTS OneLayer Meets AtBase
PROPERTY Falls
CHECK_DEADLOCK FALSE
