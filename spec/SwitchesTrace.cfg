SPECIFICATION TraceSpec
CONSTANTS
  Dim = 25
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
