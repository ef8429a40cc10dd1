---------------------------- MODULE SiteCoordsMC ----------------------------
EXTENDS SiteCoords, TLC, Json, FiniteSets
CONSTANTS Ids, Emit
VARIABLES f, ask
vars == <<f, ask>>
Perms(S) == UNION {{q \in [1..n -> S] : \A i, j \in 1..n : i # j => q[i] # q[j]} : n \in 0..Cardinality(S)}
\* how a site is described: not at all, fully, or with a parameter (or the unit of one) missing
Kinds == {"none", "full", "lacks", "unit"}
Six(s, k) == [i \in 1..6 |-> [s |-> s, p |-> <<"STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ">>[i], u |-> IF i < 4 THEN "m" ELSE IF k = "unit" /\ i = 5 THEN "m" ELSE "m/y"]]
Of(s, k) == IF k = "none" THEN <<>> ELSE IF k = "lacks" THEN SubSeq(Six(s, k), 1, 5) ELSE Six(s, k)
RECURSIVE Est(_, _)
Est(S, kind) == IF S = <<>> THEN <<>> ELSE Of(Head(S), kind[Head(S)]) \o Est(Tail(S), kind)
Init == f = [sites |-> <<>>, est |-> <<>>, kind |-> [i \in Ids |-> "none"]] /\ ask = <<>>
File == f.sites = <<>> /\ ask = <<>> /\ UNCHANGED ask /\ \E kind \in [Ids -> Kinds] : \E q \in Perms(Ids) :
            /\ Range(q) = {i \in Ids : kind[i] # "none"}
            /\ f' = [sites |-> q, est |-> Est(q, kind), kind |-> kind]
Ask == ask = <<>> /\ UNCHANGED f /\ \E q \in Perms(Ids) : \E st \in BOOLEAN : ask' = <<[req |-> q, strict |-> st]>>
Spec == Init /\ [][File \/ Ask]_vars
A == Answer(f, ask[1].req, ask[1].strict)
R == ask[1].req
Right == ask # <<>> => 
   /\ (A.rc # 0) = (ask[1].strict /\ \E i \in 1..Len(R) : f.kind[R[i]] # "full")
   /\ (A.rc = 0 => A.list = SelectSeq(R, LAMBDA s : f.kind[s] = "full"))
\* the order of the file does not matter
Own == ask # <<>> => \A i \in 1..Len(A.list) : \A a \in 1..3 : LET q == Pair(f.est, A.list[i], Axes[a]) IN f.est[q[1]].s = A.list[i] /\ f.est[q[2]].s = A.list[i]
EmitBeh == (Emit /\ ask # <<>>) => PrintT("BEH " \o ToJson([sites |-> f.sites, kind |-> [i \in 1..Len(f.sites) |-> f.kind[f.sites[i]]], req |-> ask[1].req, strict |-> ask[1].strict]))
=============================================================================
