----------------------------- MODULE SatMassMC -----------------------------
EXTENDS SatMass, TLC, Json
CONSTANTS N, Emit
VARIABLES F, q, ph
vars == <<st, pos, cur, F, q, ph>>
Times == [d : 1..2, ms : 0..2]
Lines == {[k |-> "skip", d |-> 0, ms |-> 0, dok |-> TRUE, vok |-> TRUE, v |-> <<>>]}
         \cup [k : {"rec"}, d : 1..2, ms : 0..2, dok : {TRUE}, vok : BOOLEAN, v : {<<0>>}]
         \cup {[k |-> "rec", d |-> 1, ms |-> 0, dok |-> FALSE, vok |-> FALSE, v |-> <<>>]}
Put(L) == [L EXCEPT !.v = <<Len(F) + 1, 0, 0, 0>>]
MCInit == MInit /\ F = <<>> /\ q \in Times \cup {[d |-> 0, ms |-> 1], [d |-> 3, ms |-> 0]} /\ ph = "make"
Make == ph = "make" /\ Len(F) < N /\ \E L \in Lines : F' = Append(F, Put(L)) /\ UNCHANGED <<st, pos, cur, q, ph>>
Go == ph = "make" /\ ph' = "read" /\ UNCHANGED <<st, pos, cur, F, q>>
Read == ph = "read" /\ MStep(F, q) /\ UNCHANGED <<F, q, ph>>
MCSpec == MCInit /\ [][Make \/ Go \/ Read]_vars /\ WF_vars(Read)
Done == ph = "read" /\ st # "scan"
Right == (Done /\ Readable(F) /\ Ordered(F)) => st = "ok" /\ cur = InForce(F, q)
FoldAgrees == Done => \E w \in Outcomes(F, q) : w.ok = (st = "ok") /\ (w.ok => w.v = cur)
Ends == (ph = "read") ~> (st # "scan")
EmitBeh == (Emit /\ ph = "read" /\ st = "scan" /\ pos = 1) => PrintT("BEH " \o ToJson([F |-> F, q |-> q]))
=============================================================================
