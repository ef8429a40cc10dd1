SPECIFICATION FairSpec
CONSTANTS
  MaxSteps = 2
  ErrFactor = 1
  N = 1
  Emit = FALSE
  Times = {0, 1}
  Flags <- FlagGen
  Tols <- TolOk
INVARIANTS STypeOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
