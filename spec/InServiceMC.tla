---------------------------- MODULE InServiceMC ----------------------------
EXTENDS InService, TLC, Json, FiniteSets
CONSTANTS T, N, Emit
VARIABLES F, q
vars == <<F, q>>
Lt(a, b) == a < b
Row(i, a, b) == [k |-> "row", id |-> i, h |-> a + 2 * b, from |-> a, to |-> b]
Init == F = <<[k |-> "head"]>> /\ q = -1
AddRow == q < 0 /\ Len(F) < N + 1 /\ \E a, b \in 0..T : F' = Append(F, Row(Len(F), a, b)) /\ UNCHANGED q
AddBad == q < 0 /\ Len(F) < N + 1 /\ (\A i \in 1..Len(F) : F[i].k # "bad") /\ F' = Append(F, [k |-> "bad"]) /\ UNCHANGED q
Ask == q' \in 0..T /\ UNCHANGED F
Spec == Init /\ [][AddRow \/ AddBad \/ Ask]_vars
Right == q >= 0 => LET r == Load(F, q) Ok == \A i \in 2..Len(F) : F[i].k = "row" IN
   /\ (r.rc = 0) = Ok
   /\ (Ok => r.list = SelectSeq(Tail(F), LAMBDA x : x.from <= q /\ q < x.to))
\* intervals that follow each other without a gap: always exactly one of them holds; empty and reversed ones never
Cover == q >= 0 => LET r == Load(F, q) IN r.rc = 0 =>
   /\ \A i \in 1..Len(r.list) : r.list[i].from < r.list[i].to
   /\ ((Len(F) = 3 /\ F[2].to = F[3].from /\ F[2].from <= F[2].to /\ F[3].from <= F[3].to /\ F[2].from <= q /\ q < F[3].to) => Len(r.list) = 1)
EmitBeh == (Emit /\ q = 0) => PrintT("BEH " \o ToJson([i \in 1..(Len(F) - 1) |-> IF F[i + 1].k = "bad" THEN <<>> ELSE <<F[i + 1].from, F[i + 1].to>>]))
=============================================================================
