SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
