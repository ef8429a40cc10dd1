SPECIFICATION TraceSpec
CONSTANTS
  MaxSteps = 500
  ErrFactor = 1
  Enforce = {"C01", "C02", "C03"}
INVARIANTS STypeOK OneOutcome
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
