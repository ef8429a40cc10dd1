----------------------------- MODULE DopplerMC -----------------------------
EXTENDS Doppler, TLC, Json, FiniteSets
CONSTANTS N, Bs, Emit
VARIABLES blocks, last, out
vars == <<blocks, last, out>>
V(ok) == [s |-> IF ok THEN "+" ELSE "m"]
RECURSIVE Flat(_)
Flat(B) == IF B = <<>> THEN <<>> ELSE Head(B) \o Flat(Tail(B))
Init == blocks = <<>> /\ last = <<>> /\ out = <<>>
\* a block: different beacons in some order, each with both phases or without one
Blocks == UNION {{q \in [1..n -> Bs \X {0, 1, 2}] : \A i, j \in 1..n : i # j => q[i][1] # q[j][1]} : n \in 0..Cardinality(Bs)}
Read == Len(blocks) < N /\ \E q \in Blocks :
          LET k == Len(Flat(blocks)) B == [i \in 1..Len(q) |-> [b |-> q[i][1], p1 |-> V(q[i][2] # 1), p2 |-> V(q[i][2] # 2), t |-> Len(blocks) + 1, ix |-> k + i]] IN
          blocks' = Append(blocks, B) /\ out' = out \o CountsOf(last, B) /\ last' = Keep(last, B)
Spec == Init /\ [][Read]_vars
Right == LET O == Flat(blocks) IN /\ {<<out[i].from.ix, out[i].to.ix>> : i \in 1..Len(out)} = Pairs(O) /\ Cardinality(Pairs(O)) = Len(out)
\* each count: one beacon, later block, both phases; in file order
Sound == \A i \in 1..Len(out) : out[i].from.b = out[i].to.b /\ out[i].from.t < out[i].to.t /\ Usable(out[i].from) /\ Usable(out[i].to) /\ (i > 1 => out[i - 1].to.ix < out[i].to.ix)
Whole == out = Counts(<<>>, blocks)
EmitBeh == (Emit /\ Len(blocks) = N) => PrintT("BEH " \o ToJson([i \in 1..N |-> [j \in 1..Len(blocks[i]) |-> [b |-> blocks[i][j].b, k |-> IF blocks[i][j].p1.s = "m" THEN 1 ELSE IF blocks[i][j].p2.s = "m" THEN 2 ELSE 0]]]))
=============================================================================
