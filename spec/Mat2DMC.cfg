SPECIFICATION Spec
CONSTANTS
  MaxDim = 6
INVARIANTS LayoutOK RanksOK RowsContiguous
CHECK_DEADLOCK FALSE
