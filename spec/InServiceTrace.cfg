SPECIFICATION TraceSpec
CONSTANTS
  Before <- Earlier
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
