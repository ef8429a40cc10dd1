------------------------------- MODULE Mat2D -------------------------------
(* Where the cells of a compact 2-d matrix live.  Kinds: "R" row-wise, "C"      *)
(* column-wise, "T" lower triangle / trapezoid stored row by row.               *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
InShape(k, r, c, i, j) == i \in 0..r-1 /\ j \in 0..c-1 /\ (k = "T" => j <= i)
Cells(k, r, c) == {p \in (0..r-1) \X (0..c-1) : InShape(k, r, c, p[1], p[2])}
RECURSIVE TriStart(_, _)
TriStart(i, c) == IF i = 0 THEN 0 ELSE TriStart(i - 1, c) + Min2(i, c)
Offset(k, r, c, i, j) == CASE k = "R" -> i * c + j [] k = "C" -> j * r + i [] k = "T" -> TriStart(i, c) + j
NumCells(k, r, c) == IF k = "T" THEN TriStart(r, c) ELSE r * c
\* cells in the order they are listed by a caller walking row by row
Rank(k, r, c, i, j) == IF k = "T" THEN TriStart(i, c) + j + 1 ELSE i * c + j + 1
\* what any layout must satisfy (a: cell -> offset, n: number of stored elements)
GoodLayout(cells, a, n) == /\ \A p \in cells : a[p] \in 0..n-1
                           /\ Cardinality({a[p] : p \in cells}) = Cardinality(cells)
                           /\ n = Cardinality(cells)
=============================================================================
