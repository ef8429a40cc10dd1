------------------------------ MODULE SatMass ------------------------------
(* A satellite's mass / centre-of-gravity history: comment lines and records     *)
(* (day, milliseconds, four corrections; dok / vok: date / values readable).      *)
(* The reader keeps the last record passed and stops at the first later one.      *)
EXTENDS Integers, Sequences
VARIABLES st, pos, cur
NotAfter(L, q) == L.d < q.d \/ (L.d = q.d /\ L.ms <= q.ms)
MInit == st = "scan" /\ pos = 1 /\ cur = <<0, 0, 0, 0>>
Next1 == pos' = pos + 1 /\ UNCHANGED st
MStep(F, q) ==
  /\ st = "scan"
  /\ (IF pos > Len(F) THEN st' = "ok" /\ UNCHANGED <<pos, cur>>
      ELSE LET L == F[pos] IN
           IF L.k = "skip" THEN Next1 /\ UNCHANGED cur
           ELSE IF ~L.dok THEN st' = "err" /\ UNCHANGED <<pos, cur>>
           ELSE IF ~NotAfter(L, q) THEN st' \in (IF L.vok THEN {"ok"} ELSE {"ok", "err"}) /\ UNCHANGED <<pos, cur>>
           ELSE IF ~L.vok THEN st' = "err" /\ UNCHANGED <<pos, cur>>
           ELSE Next1 /\ cur' = L.v)
\* as a function, for recorded queries
RECURSIVE Scan(_, _, _, _)
Scan(F, q, i, c) ==
  IF i > Len(F) THEN {[ok |-> TRUE, v |-> c]}
  ELSE LET L == F[i] err == [ok |-> FALSE, v |-> <<>>] IN
       IF L.k = "skip" THEN Scan(F, q, i + 1, c)
       ELSE IF ~L.dok THEN {err}
       ELSE IF ~NotAfter(L, q) THEN {[ok |-> TRUE, v |-> c]} \cup (IF L.vok THEN {} ELSE {err})
       ELSE IF ~L.vok THEN {err} ELSE Scan(F, q, i + 1, L.v)
Outcomes(F, q) == Scan(F, q, 1, <<0, 0, 0, 0>>)
\* ---- the property: the record in force
Readable(F) == \A i \in 1..Len(F) : F[i].k = "rec" => F[i].dok /\ F[i].vok
Ordered(F) == \A i, j \in 1..Len(F) : (i < j /\ F[i].k = "rec" /\ F[j].k = "rec") => NotAfter(F[i], F[j])
InForce(F, q) == LET P == {i \in 1..Len(F) : F[i].k = "rec" /\ NotAfter(F[i], q)} IN
                 IF P = {} THEN <<0, 0, 0, 0>> ELSE F[CHOOSE i \in P : \A j \in P : j <= i].v
=============================================================================
