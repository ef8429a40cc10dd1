SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Emit = TRUE
  Top = 2
  MaxL = 1
INVARIANTS OkExact OkNothingElse OkIff OrderFree FoldAgrees EmitBeh
CHECK_DEADLOCK FALSE
