SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
  MaxDeg = 5
  HasNorm = TRUE
INVARIANT HTypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
