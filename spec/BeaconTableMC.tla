--------------------------- MODULE BeaconTableMC ---------------------------
(* The two searches as the code does them: entry by entry, character by         *)
(* character over the fixed width, the first match wins.                        *)
EXTENDS BeaconTable, FiniteSets
CONSTANTS N, Chars
VARIABLES st, q, i, j, by, res
vars == <<st, q, i, j, by, res>>
Ids == {<<a, b>> : a, b \in Chars}
Key(e) == IF by = "code" THEN e.c ELSE e.id
Init == st = <<>> /\ q \in Ids /\ by \in {"code", "id"} /\ i = 0 /\ j = 1 /\ res = -1
List == /\ i = 0 /\ Len(st) < N /\ UNCHANGED <<q, by, i, j, res>>
        /\ \E c \in Ids \ {st[x].c : x \in 1..Len(st)} : \E d \in Ids : st' = Append(st, [c |-> c, id |-> d, k |-> 7])
Ask == i = 0 /\ i' = 1 /\ UNCHANGED <<st, q, by, j, res>>
Step == /\ i > 0 /\ res = -1 /\ UNCHANGED <<st, q, by>>
        /\ IF i > Len(st) THEN res' = 0 /\ UNCHANGED <<i, j>>
           ELSE IF j > 2 THEN res' = i /\ UNCHANGED <<i, j>>
           ELSE IF Key(st[i])[j] = q[j] THEN j' = j + 1 /\ UNCHANGED <<i, res>> ELSE i' = i + 1 /\ j' = 1 /\ UNCHANGED res
Spec == Init /\ [][List \/ Ask \/ Step]_vars /\ WF_vars(Step)
Ends == (i > 0) ~> (res # -1)
Agrees == res # -1 => IF by = "code" THEN /\ res \in Place(st, q) /\ ByCode(st, q) = (IF res = 0 THEN {} ELSE {st[res].id})
                      ELSE IF res = 0 THEN ById(st, q) = {} ELSE st[res].c \in ById(st, q)
\* with each identifier listed once the two directions are inverse
Inverse == (Cardinality({st[x].id : x \in 1..Len(st)}) = Len(st)) =>
             \A x \in 1..Len(st) : ByCode(st, st[x].c) = {st[x].id} /\ ById(st, st[x].id) = {st[x].c}
NeverAnother == \A a \in Ids : (ByCode(st, a) # {} => \E x \in 1..Len(st) : st[x].c = a) /\ (Shift(st, a) # {} <=> At(st, a) # {})
\* strictly increasing in k, 0 at 0, additive to the rounding of the last digit
Linear == \A k \in -300..300 : \A b \in {1, 2} : LET f == Frequency(b, k) g == Frequency(b, k + 1) IN
             /\ f[2] \in 0..1048575 /\ (g[1] > f[1]) /\ Frequency(b, 0) = <<0, 0>>
             /\ (LET d == IF b = 1 THEN <<703, 991697>> ELSE <<138, 749637>> s == f[2] + d[2] IN g = <<f[1] + d[1] + s \div 1048576, s % 1048576>>)
ASSUME Linear
=============================================================================
