------------------------------- MODULE Filter -------------------------------
(* The orbit-determination filter: a state vector and its covariance, an entry  *)
(* of its own for every estimated quantity, and the (extended) Kalman updates.  *)
(* Entries are rationals over the common denominator d.                         *)
EXTENDS Integers, Sequences
Dims(np, lin, ns) == 6 + np + ns * (IF lin THEN 3 ELSE 2)
\* a layout: the positions of the quantities; drag = 0: no dynamic parameter
Positions(L) == {<<"sat", i, i>> : i \in 1..6} \cup {<<"dyn", i, i>> : i \in 7..(6 + L.np)}
                \cup {<<"tropo", b, L.tropo[b]>> : b \in 1..L.ns} \cup {<<"rf", b, L.rf[b]>> : b \in 1..L.ns} \cup (IF L.lin THEN {<<"drift", b, L.rf[b] + 1>> : b \in 1..L.ns} ELSE {})
Layout(L) == /\ L.n = Dims(L.np, L.lin, L.ns) /\ Len(L.tropo) = L.ns /\ Len(L.rf) = L.ns
             /\ \A p \in Positions(L) : p[3] \in 1..L.n
             /\ \A p, q \in Positions(L) : p[3] = q[3] => p = q
             /\ (L.np >= 1 => L.drag \in 7..(6 + L.np))
Zero(n) == [i \in 1..n |-> 0]
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Fresh(L) == [L |-> L, x |-> Zero(L.n), P |-> Unit(L.n), d |-> 1]
\* S: positions, v: the value of position i
SetX(F, S, v(_)) == [F EXCEPT !.x = [i \in 1..F.L.n |-> IF i \in S THEN v(i) * F.d ELSE @[i]]]
SetP(F, S, v(_)) == [F EXCEPT !.P = [i \in 1..F.L.n |-> IF i \in S THEN [@[i] EXCEPT ![i] = v(i) * F.d] ELSE @[i]]]
Beacons(F, b) == IF b = 0 THEN 1..F.L.ns ELSE {b}                    \* 0: all of them
Tropo(F, b) == {F.L.tropo[k] : k \in Beacons(F, b)}
Rf(F, b) == {F.L.rf[k] : k \in Beacons(F, b)}
Drift(F, b) == IF F.L.lin THEN {F.L.rf[k] + 1 : k \in Beacons(F, b)} ELSE {}
SetTropo(F, b, v) == SetX(F, Tropo(F, b), LAMBDA i : v)
SetTropoSigma(F, b, v) == SetP(F, Tropo(F, b), LAMBDA i : v)
SetRf(F, b, u, w) == SetX(F, Rf(F, b) \cup Drift(F, b), LAMBDA i : IF i \in Rf(F, b) THEN u ELSE w)
SetRfSigma(F, b, u, w) == SetP(F, Rf(F, b) \cup Drift(F, b), LAMBDA i : IF i \in Rf(F, b) THEN u ELSE w)
SetDrag(F, v) == SetX(F, {F.L.drag}, LAMBDA i : v)
SetDragSigma(F, v) == SetP(F, {F.L.drag}, LAMBDA i : v)
RECURSIVE Dot(_, _, _)
Dot(u, w, k) == IF k = 0 THEN 0 ELSE (IF u[k] = 0 THEN 0 ELSE u[k] * w[k]) + Dot(u, w, k - 1)
\* P := phi P phi'; the state is given (a sequence of unscaled values)
Column(M, j, n) == [i \in 1..n |-> M[i][j]]
Time(F, xk, phi) == LET n == F.L.n
                        A == [i \in 1..n |-> [j \in 1..n |-> Dot(phi[i], F.P[j], n)]]       \* phi P, P symmetric
                    IN [F EXCEPT !.x = [i \in 1..n |-> xk[i] * F.d], !.P = [i \in 1..n |-> [j \in 1..n |-> Dot(A[i], phi[j], n)]]]
\* with the process noise q, a diagonal
Noise(F, q) == [F EXCEPT !.P = [i \in 1..F.L.n |-> [@[i] EXCEPT ![i] = @ + q[i] * F.d]]]
\* anew, from estimates and a diagonal covariance
Start(F, xk, p) == [F EXCEPT !.x = xk, !.P = [i \in 1..F.L.n |-> [j \in 1..F.L.n |-> IF i = j THEN p[i] ELSE 0]], !.d = 1]
\* measurement z, predicted g, variance r, partials H
Obs(F, z, g, r, H) == LET n == F.L.n
                          h == [i \in 1..n |-> Dot(H, F.P[i], n)]
                          s == r * F.d + Dot(H, h, n)
                      IN [F EXCEPT !.x = [i \in 1..n |-> F.x[i] * s + h[i] * (z - g) * F.d], !.P = [i \in 1..n |-> [j \in 1..n |-> F.P[i][j] * s - h[i] * h[j]]], !.d = F.d * s]
Symmetric(F) == \A i, j \in 1..F.L.n : F.P[i][j] = F.P[j][i]
=============================================================================
