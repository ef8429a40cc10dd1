----------------------------- MODULE KernelsMC -----------------------------
EXTENDS Kernels, TLC, Json
CONSTANTS N, Emit
VARIABLES log, asked          \* asked: the files loaded by explicit loads since they were last in the pool only by request
vars == <<files, pool, log, asked>>
Kinds == [t1 |-> [kind |-> "text", kids |-> <<>>, gm |-> 0], t2 |-> [kind |-> "text", kids |-> <<>>, gm |-> 5], t3 |-> [kind |-> "text", kids |-> <<>>, gm |-> 7],
          s1 |-> [kind |-> "spk", kids |-> <<>>, gm |-> 0], s2 |-> [kind |-> "spk", kids |-> <<>>, gm |-> 0],
          p1 |-> [kind |-> "pck", kids |-> <<>>, gm |-> 0], m1 |-> [kind |-> "meta", kids |-> <<"t1", "s1">>, gm |-> 0]]
Names == {"t1", "t2", "t3", "s1", "s2", "p1", "m1"}
Init == files = Kinds /\ pool = <<>> /\ log = <<>> /\ asked = {}
Do(op, f, p) == pool' = p /\ log' = Append(log, [op |-> op, f |-> f]) /\ UNCHANGED files
Next == /\ Len(log) < N
        /\ \E f \in Names : \/ Do("load", f, Load(pool, f)) /\ asked' = asked \cup {Load(<<>>, f)[i] : i \in 1..Len(Load(<<>>, f))}
                            \/ In(pool, f) /\ Do("unload", f, Unload(pool, f)) /\ UNCHANGED asked
                            \/ \E k \in {"lsk", "spk", "pck"} : Requestable(k, f) /\ Do(k, f, Request(pool, f)) /\ UNCHANGED asked
                            \/ Gm(Request(pool, f)) # 0 /\ Requestable("pck", f) /\ Do("gm", f, Request(pool, f)) /\ UNCHANGED asked
MCSpec == Init /\ [][Next]_vars
\* requests alone never load a file twice
Once == \A f \in Names \ asked : Loads(pool, f) <= 1
\* after a request the file is there; a request for a file that is there changes nothing, any other adds it (and only it)
Step == [][(Len(log') > 0 /\ log'[Len(log')].op \in {"lsk", "spk", "pck", "gm"}) =>
             LET f == log'[Len(log')].f IN In(pool', f) /\ (In(pool, f) => pool' = pool) /\ (~In(pool, f) => pool' = Append(pool, f))]_vars
EmitBeh == (Emit /\ Len(log) = N) => PrintT("BEH " \o ToJson(log))
=============================================================================
