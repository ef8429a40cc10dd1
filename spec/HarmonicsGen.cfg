SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  MaxDeg = 1
  HasNorm = TRUE
  Vals = {1, 2}
  N = 4
  Emit = TRUE
INVARIANTS HTypeOK CellsDistinct EmitBeh


CHECK_DEADLOCK FALSE
