---------------------------- MODULE SwFeedMC ----------------------------
EXTENDS SwFeed, TLC, Json
CONSTANTS D, N, H, Emit
VARIABLES last, hist
vars == <<head, lines, pos, win, day, last, hist>>
Val(d) == [i \in 1..14 |-> 16 * d + i]
Init == head = "ok" /\ lines = <<>> /\ pos = 0 /\ win = <<>> /\ day = -1 /\ last = <<>> /\ hist = <<>>
Top(L) == LET S == {L[i].d : i \in {j \in 1..Len(L) : L[j].k # "bad"}} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Grow == /\ Len(lines) < N /\ last = <<>>
        /\ \E x \in {[k |-> "bad"]} \cup [k : {"part"}, d : Top(lines) + 1..Top(lines) + 1] \cup [k : {"day"}, d : Top(lines) + 1..Top(lines) + 2] :
             /\ (x.k # "bad" => x.d <= D)
             /\ lines' = Append(lines, IF x.k = "day" THEN [k |-> "day", d |-> x.d, v |-> Val(x.d), f |-> 0] ELSE x)
             /\ hist' = IF hist = <<>> THEN <<>> ELSE Append(hist, <<"G", IF x.k = "bad" THEN 0 ELSE x.d, x.k>>)
        /\ UNCHANGED <<head, pos, win, day, last>>
Next(d, s) == LET r == IF d = day + 1 /\ day >= 0 THEN Scan(head, lines, pos, d, 1) ELSE Scan(head, lines, pos, d - 3, 4)
                  ok == d = day \/ r.ok
                  w == IF d = day THEN win ELSE IF Len(r.rows) = 1 THEN Tail(win) \o r.rows ELSE r.rows IN
  /\ Update(d, s, ok, IF ok THEN Walk(w, s) ELSE <<>>)
  /\ last' = <<d, s, ok>> /\ hist' = Append(hist, <<"U", d, s>>)
DoUpdate == Len(hist) < H /\ \E d \in 3..(D + 1), s \in {0, 1, 4, 7} : Next(d, s)
Rest == last # <<>> /\ last' = <<>> /\ UNCHANGED <<head, lines, pos, win, day, hist>>
Spec == Init /\ [][Grow \/ DoUpdate \/ Rest]_vars
\* an update succeeds iff the file has the day and the three before it, and gives what these days say, whatever was asked before
NoMemory == last # <<>> => LET g == Fresh(head, lines, last[1] - 3, 4) IN last[3] = g.ok /\ (g.ok => Walk(win, last[2]) = Inputs(lines, last[1], last[2]))
AllSlots == day >= 0 => \A s \in 0..7 : Walk(win, s) = Inputs(lines, day, s)
View == <<head, lines, pos, win, day, last, Len(hist)>>
EmitBeh == (Emit /\ Len(hist) = H) => PrintT("BEH " \o ToJson([lines |-> [i \in 1..Len(lines) |-> <<lines[i].k, IF lines[i].k = "bad" THEN 0 ELSE lines[i].d>>], ops |-> hist]))
=============================================================================
