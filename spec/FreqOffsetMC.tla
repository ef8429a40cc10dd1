---------------------------- MODULE FreqOffsetMC ----------------------------
EXTENDS FreqOffset, TLC, Json, FiniteSets
CONSTANTS L, Ns, Emit
VARIABLES n, files, cur, b, pts, done
vars == <<n, files, cur, b, pts, done>>
\* kinds of epochs of a file: u usable, m without a reading, e without beacons, o before, x after the window
Kinds == {"u", "m", "e", "o", "x"}
Init == n \in Ns /\ files = <<>> /\ cur = <<>> /\ b = B0 /\ pts = <<>> /\ done = FALSE
Total == Len(cur) + (IF files = <<>> THEN 0 ELSE Len(files[1]))
F(i) == i * i + 1
Tick == 3 * Total + (Total % 2)
Epoch == /\ ~done /\ Total < L
         /\ \E k \in Kinds :
              /\ (k = "o" => \A i \in 1..Len(cur) : cur[i].k = "o") /\ (k # "x" => \A i \in 1..Len(cur) : cur[i].k # "x")   \* in order of time
              /\ (files # <<>> /\ k = "o" => \A i \in 1..Len(files[1]) : files[1][i].k = "o")
              /\ (files # <<>> /\ k # "x" => \A i \in 1..Len(files[1]) : files[1][i].k # "x")
              /\ LET r == [k |-> k, t |-> Tick, f |-> F(Total)] c == Take(b, r) IN
                 /\ cur' = Append(cur, r)
                 /\ IF k # "u" THEN UNCHANGED <<b, pts>> ELSE IF c.k = n THEN b' = B0 /\ pts' = Append(pts, Point(c)) ELSE b' = c /\ UNCHANGED pts
         /\ UNCHANGED <<n, files, done>>
EndFile == /\ ~done /\ pts' = Close(b, pts) /\ b' = B0 /\ UNCHANGED n
           /\ (IF files = <<>> THEN files' = <<cur>> /\ cur' = <<>> /\ done' \in BOOLEAN ELSE files' = Append(files, cur) /\ cur' = <<>> /\ done' = TRUE)
Spec == Init /\ [][Epoch \/ EndFile]_vars
Good(file) == SelectSeq(file, LAMBDA r : r.k = "u")
RECURSIVE All(_)
All(fs) == IF fs = <<>> THEN <<>> ELSE Blocks(Good(Head(fs)), n) \o All(Tail(fs))
RECURSIVE Machine(_)
Machine(fs) == IF fs = <<>> THEN <<>> ELSE PointsOf(Good(Head(fs)), n) \o Machine(Tail(fs))
Right == done => pts = All(files) /\ pts = Machine(files)
RECURSIVE SumAll(_)
SumAll(p) == IF p = <<>> THEN 0 ELSE Head(p).sum + SumAll(Tail(p))
RECURSIVE FAll(_)
FAll(fs) == IF fs = <<>> THEN 0 ELSE Sum(Good(Head(fs)), 1, Len(Good(Head(fs)))) + FAll(Tail(fs))
\* every usable reading once, no other; blocks full except the last of a file
Once == done => SumAll(pts) = FAll(files) /\ \A i \in 1..Len(pts) : pts[i].k \in 1..n
Inside == \A i \in 1..Len(pts) : \E f \in 1..Len(files) + 1 : LET G == Good(IF f <= Len(files) THEN files[f] ELSE cur) IN
             \E x \in 1..Len(G) : \E y \in x..Len(G) : y - x + 1 = pts[i].k /\ pts[i].mid2 = G[x].t + G[y].t /\ pts[i].sum = Sum(G, x, y)
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson([n |-> n, fs |-> [i \in 1..Len(files) |-> [j \in 1..Len(files[i]) |-> files[i][j].k]]]))
=============================================================================
