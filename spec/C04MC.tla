------------------------------- MODULE C04MC -------------------------------
EXTENDS C04, TLC, Json
CONSTANTS N, MaxDay, Emit
VARIABLES F, s, e, ph
vars == <<st, pos, rows, F, s, e, ph>>
Lines == {[k |-> "skip", d |-> 0, ok |-> TRUE, v |-> 0], [k |-> "bad", d |-> 0, ok |-> FALSE, v |-> 0]}
         \cup [k : {"day"}, d : 1..MaxDay, ok : BOOLEAN, v : {0}]
\* each line's value is its place, so that rows can be traced back to lines
Put(L) == [L EXCEPT !.v = Len(F) + 1]
MCInit == C04Init /\ F = <<>> /\ s \in 0..MaxDay /\ e \in 0..MaxDay + 1 /\ ph = "make"
Make == ph = "make" /\ Len(F) < N /\ \E L \in Lines : F' = Append(F, Put(L)) /\ UNCHANGED <<st, pos, rows, s, e, ph>>
Go == ph = "make" /\ ph' = "read" /\ UNCHANGED <<st, pos, rows, F, s, e>>
Read == ph = "read" /\ ScanStep(F, s, e) /\ UNCHANGED <<F, s, e, ph>>
MCNext == Make \/ Go \/ Read
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Read)
Done == ph = "read" /\ st # "scan"
\* success: exactly the days asked for, in order, each with the values of its own line
Sound == (Done /\ st = "ok") => /\ Len(rows) = e - s
                                /\ \A i \in 1..Len(rows) : rows[i].d = s + i - 1 /\ F[rows[i].v].k = "day" /\ F[rows[i].v].d = rows[i].d /\ F[rows[i].v].ok
\* success whenever the file lists the interval properly
Complete == (Done /\ Listed(F, s, e) /\ InOrder(F) /\ NoBad(F)) => st = "ok"
NoOverrun == e >= s => Len(rows) <= e - s
FoldAgrees == Done => \E w \in Outcomes(F, s, e) : w.ok = (st = "ok") /\ (w.ok => w.rows = rows)
Ends == (ph = "read") ~> (st # "scan")
EmitBeh == (Emit /\ ph = "read" /\ st = "scan" /\ pos = 1) => PrintT("BEH " \o ToJson([F |-> F, s |-> s, e |-> e]))
=============================================================================
