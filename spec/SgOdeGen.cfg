SPECIFICATION MCSpec
CONSTANTS
  MaxSteps = 2
  ErrFactor = 1
  N = 4
  Emit = TRUE
  Times = {0, 1, 2}
  Flags <- FlagGen
  Tols <- TolOk
INVARIANTS EmitBeh


CHECK_DEADLOCK FALSE
