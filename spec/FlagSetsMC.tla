----------------------------- MODULE FlagSetsMC -----------------------------
EXTENDS FlagSets, TLC, Json
CONSTANTS N, Emit
VARIABLES hist, done
mvars == <<es, sp, pk, hist, done>>
H(op, a) == done' = FALSE /\ hist' = Append(hist, [op |-> op, a |-> a])
MCInit == FInit /\ hist = <<>> /\ done = FALSE
Step ==   /\ Len(hist) < N
          /\ \/ \E o \in 1..2, f \in EF : EsSet(o, f) /\ H("EsSet", <<o, f>>)
             \/ \E o \in 1..2, f \in EF : EsClear(o, f) /\ H("EsClear", <<o, f>>)
             \/ \E o \in 1..2 : EsReset(o) /\ H("EsReset", <<o>>)
             \/ \E o \in 1..2 : EsCopy(o) /\ H("EsCopy", <<o>>)
             \/ \E o \in 1..2, f, g \in EF : f <= g /\ EsMake(o, {f, g}) /\ H("EsMake", <<o, f, g>>)
             \/ \E f \in SF : SpSet(f) /\ H("SpSet", <<f>>)
             \/ \E f \in SF : SpClear(f) /\ H("SpClear", <<f>>)
             \/ SpReset /\ H("SpReset", <<>>)
             \/ \E f, g, k \in SF : f <= g /\ SpAssign({f, g, k}) /\ H("SpAssign", <<f, g, k>>)
             \/ \E s \in 1..3, v \in PV : PkSet(s, v) /\ H("PkSet", <<s, v>>)
\* one closing step per behaviour, so that a simulated behaviour is emitted once
Finish == Len(hist) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<es, sp, pk, hist>>
MCNext == Step \/ Finish
MCSpec == MCInit /\ [][MCNext]_mvars
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
View == <<es, sp, pk, Len(hist), done>>
=============================================================================
