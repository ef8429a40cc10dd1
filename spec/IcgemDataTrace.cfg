SPECIFICATION TraceSpec
INVARIANT OkNothingElse
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
