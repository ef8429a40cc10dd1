------------------------------ MODULE Mat2DMC ------------------------------
EXTENDS Mat2D, TLC
CONSTANT MaxDim
VARIABLE sh
Init == sh \in {"R", "C", "T"} \X (1..MaxDim) \X (1..MaxDim)
Next == UNCHANGED sh
Spec == Init /\ [][Next]_sh
LayoutOK == LET k == sh[1] r == sh[2] c == sh[3] IN
            GoodLayout(Cells(k, r, c), [p \in Cells(k, r, c) |-> Offset(k, r, c, p[1], p[2])], NumCells(k, r, c))
RanksOK == LET k == sh[1] r == sh[2] c == sh[3] IN
            {Rank(k, r, c, p[1], p[2]) : p \in Cells(k, r, c)} = 1..Cardinality(Cells(k, r, c))
\* a row (column) is contiguous, so a pointer to its first cell addresses all of them
RowsContiguous == LET k == sh[1] r == sh[2] c == sh[3] IN \A p \in Cells(k, r, c) :
            Offset(k, r, c, p[1], p[2]) = IF k = "C" THEN Offset(k, r, c, 0, p[2]) + p[1] ELSE Offset(k, r, c, p[1], 0) + p[2]
=============================================================================
