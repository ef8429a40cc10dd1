--------------------------- MODULE EopTableTrace ---------------------------
EXTENDS EopTable, TraceIO
A == Ev.a
SameObj(p, w) == /\ p.st = w.st
                 /\ p.st = "live" => /\ p.sh[1] = w.n /\ Len(p.v) = Len(w.v)
                                     /\ \A i \in 1..Len(p.v) : p.v[i] # Unk => w.v[i] = p.v[i]
Matches == \A x \in Slots : SameObj(o'[x], Ev.o[x])
TraceInit == SInit /\ l = 1
TraceNext ==
  \/ IsEvent("Begin")      /\ o' = [x \in Slots |-> Dead] /\ lo' = [x \in Slots |-> 0]
  \/ IsEvent("Make")       /\ SMake(A[1], A[2]) /\ Matches
  \/ IsEvent("Write")      /\ SWrite(A[1], A[2] * W + A[3], A[4]) /\ Matches
  \/ IsEvent("Fill")       /\ SFill(A[1], [i \in DOMAIN o[A[1]].v |-> A[2] + i]) /\ Matches
  \/ IsEvent("Resize")     /\ SResize(A[1], A[2]) /\ Matches
  \/ IsEvent("CopyCtor")   /\ SCopyCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("CopyAssign") /\ SCopyAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveCtor")   /\ SMoveCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveAssign") /\ SMoveAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("Destroy")    /\ SDestroy(A[1]) /\ Matches
  \/ IsEvent("End")        /\ Ev.leak = 0 /\ UNCHANGED <<o, lo>>
TraceSpec == TraceInit /\ [][TraceNext]_<<o, lo, l>>
=============================================================================
