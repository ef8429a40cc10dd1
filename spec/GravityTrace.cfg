SPECIFICATION TraceSpec
CONSTANTS
  N = 4
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
