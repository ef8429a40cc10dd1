------------------------------ MODULE FilterMC ------------------------------
EXTENDS Filter, TLC, Json, FiniteSets
CONSTANTS N, Nps, Nss, Emit
VARIABLES F, log
vars == <<F, log>>
LayoutOf(np, lin, ns) == [np |-> np, lin |-> lin, ns |-> ns, n |-> Dims(np, lin, ns), drag |-> IF np > 0 THEN 7 ELSE 0,
                          tropo |-> [b \in 1..ns |-> 7 + np + (b - 1) * (IF lin THEN 3 ELSE 2)], rf |-> [b \in 1..ns |-> 8 + np + (b - 1) * (IF lin THEN 3 ELSE 2)]]
Init == \E np \in Nps, lin \in BOOLEAN, ns \in Nss : F = Fresh(LayoutOf(np, lin, ns)) /\ log = <<[op |-> "New", np |-> np, lin |-> lin, ns |-> ns]>>
k == Len(log)
Do(r, G) == F' = G /\ log' = Append(log, r)
Step == k <= N /\
  \/ \E b \in 0..F.L.ns : \/ Do([op |-> "SetTropo", b |-> b, v |-> 10 + k], SetTropo(F, b, 10 + k))
                          \/ Do([op |-> "SetTropoSigma", b |-> b, v |-> 2 + k], SetTropoSigma(F, b, 2 + k))
                          \/ Do([op |-> "SetRf", b |-> b, v |-> 20 + k, w |-> 30 + k], SetRf(F, b, 20 + k, 30 + k))
                          \/ Do([op |-> "SetRfSigma", b |-> b, v |-> 2 + k, w |-> 5 + k], SetRfSigma(F, b, 2 + k, 5 + k))
  \/ F.L.drag > 0 /\ (Do([op |-> "SetDrag", v |-> 40 + k], SetDrag(F, 40 + k)) \/ Do([op |-> "SetDragSigma", v |-> 3], SetDragSigma(F, 3)))
  \* one entry enters another one's prediction; one quantity, or a sum of two, is measured
  \/ \E i, j \in {1, 6, F.L.n} : i # j /\ LET ph == [Unit(F.L.n) EXCEPT ![i][j] = 2] xk == [m \in 1..F.L.n |-> m] IN Do([op |-> "Time", i |-> i, j |-> j], Time(F, xk, ph))
  \/ F.d < 2000 /\ \E i, j \in {1, F.L.n - 1, F.L.n} : LET H == [m \in 1..F.L.n |-> IF m \in {i, j} THEN 1 ELSE 0] IN Do([op |-> "Obs", i |-> i, j |-> j], Obs(F, 3, 1, 4, H))
Spec == Init /\ [][Step]_vars
LayoutOK == Layout(F.L)
Sym == Symmetric(F)
\* variances stay positive
Positive == \A i \in 1..F.L.n : F.P[i][i] > 0
\* a setter touches only its own entries
Changed(G) == {i \in 1..F.L.n : G.x[i] # F.x[i]}
ChangedP(G) == {<<i, j>> : i, j \in 1..F.L.n} \cap {p \in (1..F.L.n) \X (1..F.L.n) : G.P[p[1]][p[2]] # F.P[p[1]][p[2]]}
Own == \A b \in 1..F.L.ns : LET G == SetTropo(F, b, 777) R == SetRf(F, b, 778, 779) Q == SetTropoSigma(F, b, 780) Z == SetRfSigma(F, b, 781, 782) IN
         /\ Changed(G) = {F.L.tropo[b]} /\ G.P = F.P /\ ChangedP(Q) = {<<F.L.tropo[b], F.L.tropo[b]>>} /\ Q.x = F.x
         /\ Changed(R) = {F.L.rf[b]} \cup (IF F.L.lin THEN {F.L.rf[b] + 1} ELSE {}) /\ R.P = F.P /\ Z.x = F.x
         /\ \A c \in 1..F.L.ns : c # b => SetTropo(SetTropo(F, c, 5), b, 6) = SetTropo(SetTropo(F, b, 6), c, 5)
All == F.L.ns > 0 => /\ SetTropo(F, 0, 9).x = (LET R[b \in 0..F.L.ns] == IF b = 0 THEN F ELSE SetTropo(R[b - 1], b, 9) IN R[F.L.ns]).x
                     /\ SetRf(F, 0, 8, 7).x = (LET R[b \in 0..F.L.ns] == IF b = 0 THEN F ELSE SetRf(R[b - 1], b, 8, 7) IN R[F.L.ns]).x
\* the covariance update is the Joseph form: (I - K H') P (I - K H')' + r K K'
Sm == {M \in [1..2 -> [1..2 -> 0 - 1..3]] : M[1][2] = M[2][1]}
Mul(A, B) == [i \in 1..2 |-> [j \in 1..2 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j]]]
Joseph == \A P \in Sm : \A H \in [1..2 -> 0 - 1..2] : \A r \in 1..2 :
            LET h == [i \in 1..2 |-> P[i][1] * H[1] + P[i][2] * H[2]] s == r + h[1] * H[1] + h[2] * H[2]
                A == [i \in 1..2 |-> [j \in 1..2 |-> (IF i = j THEN s ELSE 0) - h[i] * H[j]]] B == [i \in 1..2 |-> [j \in 1..2 |-> A[j][i]]]
            IN \A i, j \in 1..2 : Mul(Mul(A, P), B)[i][j] + r * h[i] * h[j] = s * (s * P[i][j] - h[i] * h[j])
ASSUME Joseph
\* an uncorrelated, unmeasured quantity keeps its value and variance
Untouched == F.d < 500 => \A i \in 1..F.L.n : LET H == [m \in 1..F.L.n |-> IF m = i THEN 1 ELSE 0] G == Obs(F, 3, 1, 4, H) IN
               /\ \A j \in 1..F.L.n : (F.P[i][j] = 0 /\ j # i) => G.x[j] * F.d = F.x[j] * G.d /\ G.P[j][j] * F.d = F.P[j][j] * G.d
               /\ G.P[i][i] * F.d < F.P[i][i] * G.d
EmitBeh == (Emit /\ k = N + 1) => PrintT("BEH " \o ToJson(log))
=============================================================================
