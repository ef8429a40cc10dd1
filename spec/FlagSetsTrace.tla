--------------------------- MODULE FlagSetsTrace ---------------------------
EXTENDS FlagSets, TraceIO
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
tvars == <<es, sp, pk, l>>
TraceInit == FInit /\ l = 1
\* everything a caller can see after the call: membership tests, clean tests, equality both ways, the packed values
Matches == /\ SetOf(Ev.e1) = es'[1] /\ SetOf(Ev.e2) = es'[2] /\ SetOf(Ev.sp) = sp'
           /\ Ev.p = pk'
           /\ Ev.c1 = (IF es'[1] = {} THEN 1 ELSE 0) /\ Ev.c2 = (IF es'[2] = {} THEN 1 ELSE 0) /\ Ev.cs = (IF sp' = {} THEN 1 ELSE 0)
           /\ Ev.eq = (IF es'[1] = es'[2] THEN 1 ELSE 0) /\ Ev.ne = 1 - Ev.eq
A == Ev.a
TraceNext ==
  \/ IsEvent("Begin")   /\ es' = [i \in 1..2 |-> {}] /\ sp' = {} /\ pk' = <<0, 0, 0>> /\ Matches
  \/ IsEvent("EsSet")   /\ EsSet(A[1], A[2]) /\ Matches
  \/ IsEvent("EsClear") /\ EsClear(A[1], A[2]) /\ Matches
  \/ IsEvent("EsReset") /\ EsReset(A[1]) /\ Matches
  \/ IsEvent("EsCopy")  /\ EsCopy(A[1]) /\ Matches
  \/ IsEvent("EsMake")  /\ EsMake(A[1], SetOf(Tail(A))) /\ Matches
  \/ IsEvent("SpSet")   /\ SpSet(A[1]) /\ Matches
  \/ IsEvent("SpClear") /\ SpClear(A[1]) /\ Matches
  \/ IsEvent("SpReset") /\ SpReset /\ Matches
  \/ IsEvent("SpAssign") /\ SpAssign(SetOf(A)) /\ Matches
  \/ IsEvent("PkSet")   /\ PkSet(A[1], A[2]) /\ Matches
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
