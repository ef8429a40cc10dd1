------------------------------ MODULE SwFeed ------------------------------
\* Inputs of the atmosphere model fed from a space weather file: window of the day and the three before it, walked back in steps of three hours.
EXTENDS SwData
VARIABLES day   \* day the window ends at; -1: nothing usable loaded
Ap(x, i) == x.v[i + 1]      \* slot i = 0..7
Daily(x) == x.v[9]
Obs(x) == x.v[10]
C81(x) == x.v[12]
--------------------------------------------------------------------------
\* the walk over a window of four days, newest last: position <<row, slot>>
Back(p) == IF p[2] = 0 THEN <<p[1] - 1, 7>> ELSE <<p[1], p[2] - 1>>
RECURSIVE Steps(_, _)
Steps(p, n) == IF n = 0 THEN p ELSE Steps(Back(p), n - 1)
At(w, p) == Ap(w[p[1]], p[2])
RECURSIVE Sum8(_, _, _)
Sum8(w, p, n) == IF n = 0 THEN 0 ELSE At(w, p) + Sum8(w, Back(p), n - 1)
Walk(w, s) ==
  LET p0 == <<4, s>> IN
  [f107A |-> C81(w[4]), f107 |-> Obs(w[3]), ap |-> Daily(w[4]),
   a |-> <<Daily(w[4]), At(w, p0), At(w, Steps(p0, 1)), At(w, Steps(p0, 2)), At(w, Steps(p0, 3))>>,
   m |-> <<Sum8(w, Steps(p0, 4), 8), Sum8(w, Steps(p0, 12), 8)>>]      \* eight times the means
\* the definition: calendar day and slot of so many hours before
Line(L, d) == LET i == CHOOSE i \in 1..Len(L) : IF L[i].k = "day" THEN L[i].d = d ELSE FALSE IN L[i]
Hours(L, d, s, h) == LET t == 24 * d + 3 * s - h IN Ap(Line(L, t \div 24), (t % 24) \div 3)
RECURSIVE SumHours(_, _, _, _, _)
SumHours(L, d, s, h, last) == IF h > last THEN 0 ELSE Hours(L, d, s, h) + SumHours(L, d, s, h + 3, last)
Inputs(L, d, s) ==
  [f107A |-> C81(Line(L, d)), f107 |-> Obs(Line(L, d - 1)), ap |-> Daily(Line(L, d)),
   a |-> <<Daily(Line(L, d)), Hours(L, d, s, 0), Hours(L, d, s, 3), Hours(L, d, s, 6), Hours(L, d, s, 9)>>,
   m |-> <<SumHours(L, d, s, 12, 33), SumHours(L, d, s, 36, 57)>>]
--------------------------------------------------------------------------
\* an update to slot s of day d; out is what the inputs are afterwards (any, when it fails)
Update(d, s, ok, out) ==
  /\ (IF d = day THEN UNCHANGED <<pos, win>> /\ ok = TRUE
      ELSE LET r == IF d = day + 1 /\ day >= 0 THEN Scan(head, lines, pos, d, 1) ELSE Scan(head, lines, pos, d - 3, 4) IN
        /\ ok = r.ok /\ pos' = r.pos
        /\ win' = IF ~r.ok THEN <<>> ELSE IF Len(r.rows) = 1 THEN Tail(win) \o r.rows ELSE r.rows)
  /\ day' = IF ok THEN d ELSE -1
  /\ (ok => out = Walk(win', s))
  /\ UNCHANGED <<head, lines>>
=============================================================================
