----------------------------- MODULE ObsCorrMC ------------------------------
(* A pass observed: every corrected observation shows the path alone, and the  *)
(* counts between them too, whatever the ionosphere did in between; a slip of  *)
(* a whole cycle on one carrier is not an ionosphere.                          *)
EXTENDS ObsCorr, TLC, Json
CONSTANTS G, I, L, Emit
VARIABLES path, iono, seen
vars == <<path, iono, seen>>
Init == path \in 0..G /\ iono \in 0..I /\ seen = <<>>
Observe == Len(seen) < L /\ seen' = Append(seen, <<path, iono>>) /\ path' \in 0..G /\ iono' \in 0..I
Spec == Init /\ [][Observe]_vars
O(i) == <<L1(seen[i][1], seen[i][2]), L2(seen[i][1], seen[i][2])>>
PathOnly == \A i \in 1..Len(seen) : Clean(O(i)[1], O(i)[2]) = K * F1 * seen[i][1]
Effect == \A i \in 1..Len(seen) : Corr(O(i)[1], O(i)[2]) = K * F2 * seen[i][2] /\ K * O(i)[1] + Corr(O(i)[1], O(i)[2]) = Clean(O(i)[1], O(i)[2])
Counts == \A i, k \in 1..Len(seen) : Clean(O(i)[1], O(i)[2]) - Clean(O(k)[1], O(k)[2]) = K * F1 * (seen[i][1] - seen[k][1])
NoSlip == \A i \in 1..Len(seen) : Clean(O(i)[1] + 1, O(i)[2]) /= K * F1 * seen[i][1] /\ Clean(O(i)[1], O(i)[2] + 1) /= K * F1 * seen[i][1]
ASSUME K = 283400
\* the potential of flattening is that of the formula: more at the equator, less at the poles by twice as much; its mean over three axes is the central one
ASSUME \A u \in 1..4, j \in 0..3, v \in {<<0, 0, 0>>, <<1, 2, 2>>} :
         /\ Flat(u, v, 0, <<1, 2, 2>>, 3) = 9 * Central(u, v)
         /\ Flat(u, v, j, <<1, 0, 0>>, 1) - Central(u, v) = u * j /\ Flat(u, v, j, <<0, 0, 1>>, 1) - Central(u, v) = -2 * u * j
         /\ Flat(u, v, j, <<1, 0, 0>>, 1) + Flat(u, v, j, <<0, 1, 0>>, 1) + Flat(u, v, j, <<0, 0, -1>>, 1) = 3 * Central(u, v)
EmitBeh == (Emit /\ Len(seen) = L) => PrintT("BEH " \o ToJson(seen))
=============================================================================
