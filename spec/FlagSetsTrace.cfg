SPECIFICATION TraceSpec
CONSTANTS
  EF = {0, 1, 2, 3, 4, 5, 6, 7}
  SF = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  PV = {0}
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
