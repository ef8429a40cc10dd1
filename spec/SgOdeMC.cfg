SPECIFICATION MCSpec
CONSTANTS
  MaxSteps = 2
  ErrFactor = 1
  N = 2
  Emit = FALSE
  Times = {0, 1, 2}
  Flags <- FlagSet
  Tols <- TolSet
INVARIANTS STypeOK OneOutcome BudgetHeld Remembered EmitBeh
PROPERTY RefusedSilently
VIEW View
CHECK_DEADLOCK FALSE
