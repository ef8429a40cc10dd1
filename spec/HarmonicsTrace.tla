--------------------------- MODULE HarmonicsTrace ---------------------------
EXTENDS Harmonics, TraceIO
A == Ev.a
\* the events list every container afterwards: [st, deg, gm, re, norm, C cells row by row, S cells row by row]
SeqC(d) == [j \in 1..Cardinality(Idx(d)) |-> CHOOSE i \in Idx(d) : (i[1] * (i[1] + 1)) \div 2 + i[2] + 1 = j]
SeqS(d) == [j \in 1..Cardinality(SIdx(d)) |-> CHOOSE i \in SIdx(d) : (i[1] * (i[1] - 1)) \div 2 + i[2] = j]
SC == [d \in 0..MaxDeg |-> SeqC(d)]
SS == [d \in 0..MaxDeg |-> SeqS(d)]
B(b) == IF b THEN 1 ELSE 0
Same(p, w) == /\ p.st = w.st
              /\ p.st = "live" => /\ p.deg = w.deg
                                  /\ (HasNorm /\ p.gm # Unk) => (p.gm = w.gm /\ p.re = w.re)
                                  /\ (HasNorm /\ p.norm # Unk) => p.norm = w.norm
                                  /\ \A j \in 1..Len(SC[p.deg]) : LET i == SC[p.deg][j] IN p.c[i].v # Unk => w.c[j] = Seen(p.c[i], i)
                                  /\ \A j \in 1..Len(SS[p.deg]) : LET i == SS[p.deg][j] IN p.s[i].v # Unk => w.s[j] = Seen(p.s[i], i)
Matches == \A x \in Slots : Same(o'[x], Ev.o[x])
I == <<A[2], A[3]>>
TraceInit == HInit /\ l = 1
TraceNext ==
  \/ IsEvent("Begin")      /\ o' = [x \in Slots |-> Dead]
  \/ IsEvent("Make")       /\ Make(A[1], A[2]) /\ Matches
  \/ IsEvent("MakeC")      /\ MakeC(A[1], A[2], A[3], A[4]) /\ Matches
  \/ IsEvent("Default")    /\ Default(A[1]) /\ Matches
  \/ IsEvent("Destroy")    /\ Destroy(A[1]) /\ Matches
  \/ IsEvent("MoveCtor")   /\ MoveCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveAssign") /\ MoveAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("Resize")     /\ Resize(A[1], A[2]) /\ Matches
  \/ IsEvent("WriteC")     /\ WriteC(A[1], I, A[4]) /\ Matches
  \/ IsEvent("WriteS")     /\ WriteS(A[1], I, A[4]) /\ Matches
  \/ IsEvent("SetNorm")    /\ SetNorm(A[1], A[2]) /\ Matches
  \/ IsEvent("SetConst")   /\ SetConst(A[1], A[2], A[3]) /\ Matches
  \/ IsEvent("Denorm")     /\ Denorm(A[1], A[2]) /\ Ev.rc = B(DenormErr(A[1], A[2])) /\ Matches
  \/ IsEvent("End")        /\ Ev.leak = 0 /\ UNCHANGED o          \* everything destroyed: nothing is left allocated
  \/ IsEvent("DenormBig")  /\ Ev.err <= 1000 /\ UNCHANGED o       \* worst relative error of a factor, in 1e-12, up to degree 120
TraceSpec == TraceInit /\ [][TraceNext]_<<o, l>>
=============================================================================
