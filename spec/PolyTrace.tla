----------------------------- MODULE PolyTrace -----------------------------
(* Polynomial models: sh = <<order>>, v = <<reference point, c0, .., corder>>.   *)
(* Reference point and argument are counted in half units (half seconds for the *)
(* calendar variant), so that everything here is an integer.                     *)
EXTENDS ValueHeap, TraceIO
A == Ev.a
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Sum(_, _, _)
\* 2^n * sum_{i <= k} c[i] (d/2)^i
Sum(c, d, k) == (IF k = 0 THEN 0 ELSE Sum(c, d, k - 1)) + c[k + 2] * Pow(d, k) * Pow(2, Len(c) - 2 - k)
Value2n(v, t) == Sum(v, t - v[1], Len(v) - 2)
Resized(x, n) == IF Live(x) /\ o[x].sh[1] = n THEN o[x].v
                 ELSE [i \in 1..n + 2 |-> IF i = 1 /\ Live(x) THEN o[x].v[1] ELSE Unk]
SameObj(p, w) == /\ p.st = w.st
                 /\ p.st = "live" => /\ p.sh[1] = w.n /\ Len(p.v) = Len(w.v)
                                     /\ \A i \in 1..Len(p.v) : p.v[i] # Unk => w.v[i] = p.v[i]
Matches == \A x \in Slots : SameObj(o'[x], Ev.o[x])
TraceInit == VHInit /\ l = 1
TraceNext ==
  \/ IsEvent("Begin")      /\ o' = [x \in Slots |-> Dead]
  \/ IsEvent("Make")       /\ Make(A[1], <<A[2]>>, A[2] + 2, Unk) /\ Matches
  \/ IsEvent("Write")      /\ Write(A[1], A[2] + 2, A[3]) /\ Matches
  \/ IsEvent("SetRef")     /\ Write(A[1], 1, A[2]) /\ Matches
  \/ IsEvent("Fill")       /\ WriteAll(A[1], [i \in DOMAIN o[A[1]].v |-> A[i + 1]]) /\ Matches
  \/ IsEvent("Resize")     /\ Reshape(A[1], <<A[2]>>, Resized(A[1], A[2])) /\ Matches
  \/ IsEvent("Value")      /\ Live(A[1]) /\ (\A i \in DOMAIN o[A[1]].v : o[A[1]].v[i] # Unk)
                           /\ Ev.r = Value2n(o[A[1]].v, A[2]) /\ UNCHANGED o /\ Matches
  \/ IsEvent("Line")       /\ Ev.r = 2 * A[1] + A[2] * (A[4] - A[3]) /\ Ev.ord = 1 /\ UNCHANGED o
  \/ IsEvent("CopyCtor")   /\ CopyCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("CopyAssign") /\ CopyAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveCtor")   /\ MoveCtor(A[1], A[2]) /\ Matches
  \/ IsEvent("MoveAssign") /\ MoveAssign(A[1], A[2]) /\ Matches
  \/ IsEvent("Destroy")    /\ Destroy(A[1]) /\ Matches
  \/ IsEvent("End")        /\ Ev.leak = 0 /\ UNCHANGED o
TraceSpec == TraceInit /\ [][TraceNext]_<<o, l>>
=============================================================================
