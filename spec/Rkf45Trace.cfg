SPECIFICATION TraceSpec
CONSTANTS
  MaxNfe = 3000
INVARIANTS RTypeOK WorkBound
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
