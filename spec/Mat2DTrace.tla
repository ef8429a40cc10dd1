----------------------------- MODULE Mat2DTrace -----------------------------
EXTENDS ValueHeap, TraceIO
M == INSTANCE Mat2D
A == Ev.a
SameObj(p, w) == /\ p.st = w.st
                 /\ p.st = "live" => /\ p.sh = w.sh /\ Len(p.v) = Len(w.v) /\ w.num = Len(p.v)
                                     /\ \A i \in 1..Len(p.v) : p.v[i] # Unk => w.v[i] = p.v[i]
                                     /\ w.ptr = w.v      \* row / column pointers see the same cells
Matches == \A x \in Slots : SameObj(o'[x], Ev.o[x])
Cell(x, i, j) == M!Rank(o[x].sh[1], o[x].sh[2], o[x].sh[3], i, j)
\* Layout: a[i+1][j+1] offset of each in-shape cell, s the start of each row / column, m the mirrored reads above the diagonal
Layout == LET k == Ev.k r == Ev.r c == Ev.c IN
          LET cells == M!Cells(k, r, c) IN
          LET off(p) == Ev.off[M!Rank(k, r, c, p[1], p[2])] IN
          /\ M!GoodLayout(cells, [p \in cells |-> off(p)], Ev.num)
          /\ \A p \in cells : off(p) = IF k = "C" THEN Ev.s[p[2] + 1] + p[1] ELSE Ev.s[p[1] + 1] + p[2]
          /\ k = "T" => \A p \in cells : (p[1] < c /\ p[2] # p[1]) => Ev.mir[M!Rank(k, r, c, p[1], p[2])] = off(p)
TraceInit == VHInit /\ l = 1
TraceNext ==
  \/ IsEvent("Begin")      /\ o' = [x \in Slots |-> Dead]
  \/ IsEvent("Make")       /\ Make(A[1], <<Ev.k, A[2], A[3]>>, M!NumCells(Ev.k, A[2], A[3]), Unk) /\ Matches
  \/ IsEvent("Write")      /\ Write(A[1], Cell(A[1], A[2], A[3]), A[4]) /\ Matches
  \/ IsEvent("Fill")       /\ Fill(A[1], A[2]) /\ Matches
  \/ IsEvent("CopyCtor")   /\ CopyCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("CopyAssign") /\ CopyAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveCtor")   /\ MoveCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveAssign") /\ MoveAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("Destroy")    /\ Destroy(A[1]) /\ Matches
  \/ IsEvent("Layout")     /\ Layout /\ UNCHANGED o
  \/ IsEvent("End")        /\ Ev.leak = 0 /\ UNCHANGED o
TraceSpec == TraceInit /\ [][TraceNext]_<<o, l>>
=============================================================================
