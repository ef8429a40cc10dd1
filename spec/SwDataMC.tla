---------------------------- MODULE SwDataMC ----------------------------
EXTENDS SwData, TLC, Json, FiniteSets
CONSTANTS D, N, H, W, Emit
VARIABLES last, hist
vars == <<head, lines, pos, win, last, hist>>
Empty == [d |-> 0, v |-> 0, f |-> 0]
Lost == [d |-> -1, v |-> 0, f |-> 0]
None == [op |-> "none"]
Init == head \in {"ok", "wrong", "none"} /\ lines = <<>> /\ pos = 0 /\ win = [i \in 1..W |-> Empty] /\ last = None /\ hist = <<>>
Top(L) == LET S == {L[i].d : i \in {j \in 1..Len(L) : L[j].k # "bad"}} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* the file is written, and may grow later
Grow == /\ Len(lines) < N /\ head # "none"
        /\ \E x \in {[k |-> "bad"]} \cup [k : {"part"}, d : 1..D] \cup [k : {"day"}, d : 1..D, v : {Len(lines) + 1}, f : {0}] :
             /\ (x.k # "bad" => x.d > Top(lines)) /\ lines' = Append(lines, x)
             /\ hist' = IF hist = <<>> THEN <<>> ELSE Append(hist, <<"G", IF x.k = "bad" THEN 0 ELSE x.d, x.k>>)
        /\ last' = None /\ UNCHANGED <<head, pos, win>>
More == Len(hist) < H
DoRead == More /\ \E d \in 1..(D + 1), b \in 0..1, a \in 0..1 : b + 1 + a <= W /\ LET r == Scan(head, lines, pos, d - b, b + 1 + a) IN
   /\ Read(d, b, a, r.ok, IF r.ok THEN r.rows \o SubSeq(win, b + 2 + a, W) ELSE [i \in 1..W |-> Lost])
   /\ last' = [op |-> "R", s |-> d - b, n |-> b + 1 + a, ok |-> r.ok] /\ hist' = Append(hist, <<"R", d, b, a>>)
DoNext == More /\ \E d \in 1..(D + 1), n \in 1..W :
   /\ \E ok \in BOOLEAN : LET r == Scan(head, lines, pos, d, 1) IN Next1(d, n, ok, IF r.ok THEN SubSeq(win, 2, n) \o r.rows \o SubSeq(win, n + 1, W) ELSE win)
   /\ last' = [op |-> "N", s |-> d, n |-> n, ok |-> Scan(head, lines, pos, d, 1).ok] /\ hist' = Append(hist, <<"N", d, n>>)
Spec == Init /\ [][Grow \/ DoRead \/ DoNext]_vars
\* in every reachable state, any reading gives what a fresh one gives
NoMemory == \A s \in 0..(D + 1), n \in 1..W : LET r == Scan(head, lines, pos, s, n) g == Fresh(head, lines, s, n) IN r.ok = g.ok /\ r.rows = g.rows
Windows == /\ ((last.op = "R" /\ (IF last.op = "R" THEN last.ok ELSE FALSE)) => LET g == Fresh(head, lines, last.s, last.n) IN g.ok /\ SubSeq(win, 1, last.n) = g.rows)
           /\ ((last.op = "N" /\ (IF last.op = "N" THEN last.ok ELSE FALSE)) => win[last.n].d = last.s)
PosOk == pos = 0 \/ (pos <= Len(lines) /\ (\A i \in 1..pos : lines[i].k # "bad"))
View == <<head, lines, pos, win, last, Len(hist)>>
EmitBeh == (Emit /\ Len(hist) = H) => PrintT("BEH " \o ToJson([head |-> head, lines |-> [i \in 1..Len(lines) |-> <<lines[i].k, IF lines[i].k = "bad" THEN 0 ELSE lines[i].d>>], ops |-> hist]))
=============================================================================
