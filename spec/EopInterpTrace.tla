-------------------------- MODULE EopInterpTrace --------------------------
(* Params in the order of the events: xp, yp, dut, dx, dy, lod, omega            *)
EXTENDS TraceIO, Integers
VARIABLE tab
Params == 1..7
Z(p, h) == CASE p = 3 -> h + 100000 [] p = 6 -> 2 * h + 200000 [] p = 7 -> 3 * h + 300000 [] OTHER -> 0
O(p, h) == CASE p = 1 -> 4 * h + 400000 [] p = 2 -> 5 * h + 500000 [] p = 3 -> 6 * h + 600000 [] p = 6 -> 7 * h + 700000 [] OTHER -> 0
L(p, h) == CASE p = 1 -> 8 * h + 800000 [] p = 2 -> 9 * h + 900000 [] OTHER -> 0
E == INSTANCE EopInterp
A == Ev.a
\* the table's own entries, read back
Cols(t) == \A p \in Params : Len(Ev.cols[p]) = t.n /\ \A i \in 1..t.n : 8 * Ev.cols[p][i] = E!Col8(t, p, 2 * (i - 1))
TraceInit == tab = E!Empty /\ l = 1
TraceNext ==
  \/ IsEvent("Begin")      /\ tab' = E!Empty
  \/ IsEvent("Fill")       /\ E!Fill(A[1], A[2], Ev.c) /\ Cols(tab')
  \/ IsEvent("Regularize") /\ E!Regularize /\ Cols(tab')
  \/ IsEvent("Interp")     /\ UNCHANGED tab /\ Cols(tab)
                           /\ (Ev.rc = 0) = E!Fits(tab, A[1], A[2])
                           /\ (Ev.rc = 0 => Ev.t = 2 * tab.d0 + A[1] /\ \A p \in 1..6 : Ev.v[p] = E!Full(tab, p, A[1]))
  \/ IsEvent("Lag")        /\ UNCHANGED tab /\ Cols(tab)
                           /\ (Ev.rc = 0) = E!Fits(tab, A[1], A[2])
                           /\ (Ev.rc = 0 => Ev.t = 2 * tab.d0 + A[1] /\ \A p \in 1..6 : Ev.v[p] = E!Plain(tab, p, A[1]))
TraceSpec == TraceInit /\ [][TraceNext]_<<tab, l>>
=============================================================================
