SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
  W = 8
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
