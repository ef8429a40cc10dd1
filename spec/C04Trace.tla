------------------------------ MODULE C04Trace ------------------------------
EXTENDS C04, TraceIO
VARIABLE F
tv == <<st, pos, rows, F, l>>
\* leap seconds (TAI-UTC) over the days used
Dat(d) == IF d >= 57754 THEN 37 ELSE IF d >= 57204 THEN 36 ELSE IF d >= 56109 THEN 35 ELSE IF d >= 54832 THEN 34 ELSE IF d >= 53736 THEN 33 ELSE IF d >= 51179 THEN 32 ELSE IF d >= 50630 THEN 31
          ELSE IF d >= 50083 THEN 30 ELSE 29
TTms(d) == Dat(d) * 1000 + 32184
SameRow(p, w) == w.day = p.d /\ w.ms = TTms(p.d) /\ w.v = p.v
TraceInit == C04Init /\ F = <<>> /\ l = 1
TraceNext ==
  \/ IsEvent("File")  /\ F' = Ev.lines /\ UNCHANGED <<st, pos, rows>>
  \/ IsEvent("Parse") /\ UNCHANGED <<st, pos, rows, F>>
                      /\ LET O == IF Ev.there = 1 THEN Outcomes(F, Ev.s, Ev.e) ELSE {[ok |-> FALSE, rows |-> <<>>]} IN
                         \E w \in O : /\ w.ok = (Ev.rc = 0)
                                      /\ w.ok => /\ Ev.n = Len(w.rows)
                                                 /\ \A i \in 1..Len(w.rows) : SameRow(w.rows[i], Ev.rows[i])
                      /\ Ev.n >= 0
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
