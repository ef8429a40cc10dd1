SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  MaxDeg = 1
  HasNorm = TRUE
  Vals = {1, 2}
  N = 4
  Emit = FALSE
INVARIANTS HTypeOK CellsDistinct AtMostOnce EmitBeh
PROPERTY WriteLocal
VIEW View
CHECK_DEADLOCK FALSE
