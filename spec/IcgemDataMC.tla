---------------------------- MODULE IcgemDataMC ----------------------------
EXTENDS IcgemData, Json
CONSTANTS N, Emit, Top, MaxL
VARIABLE done
R(n, m, q) == [n |-> n, m |-> m, c |-> 100 * n + 10 * m + 1, s |-> IF m = 0 THEN 0 ELSE 100 * n + 10 * m + 2, q |-> q]
Good == {R(i[1], i[2], "ok") : i \in {j \in (0..Top) \X (0..Top) : j[2] <= j[1]}}
Odd == {R(0, 0, "bad"), R(0, 0, "text")}
MCInit == \E l \in 0..MaxL, m \in 0..MaxL : m <= l /\ DInit([l |-> l, m |-> m, deg |-> Top]) /\ done = FALSE
Step == ~done /\ Len(seen) < N /\ \E r \in Good \cup Odd : DRead(r) /\ done' = FALSE
Stop == ~done /\ Len(seen) = N /\ done' = TRUE /\ (IF d.st = "err" THEN UNCHANGED dvars ELSE DEnd)
Skip == ~done /\ d.st = "err" /\ Len(seen) < N /\ \E r \in Good \cup Odd : seen' = Append(seen, r) /\ UNCHANGED <<d, rq, done>>
MCSpec == MCInit /\ [][Step \/ Stop \/ Skip]_<<d, rq, seen, done>>
FoldAgrees == done => DataOf(rq, seen) = d
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson([rq |-> rq, rs |-> seen]))
=============================================================================
