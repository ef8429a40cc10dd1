SPECIFICATION TraceSpec
INVARIANTS HTypeOK OkIsComplete
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
