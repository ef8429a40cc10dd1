--------------------------- MODULE InServiceTrace ---------------------------
EXTENDS InService, TraceIO
VARIABLES F, there
vars == <<F, there, l>>
\* epochs: <<day, second, nanosecond>>
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
TraceInit == F = <<>> /\ there = 0 /\ l = 1
TraceNext ==
  \/ IsEvent("Table") /\ F' = Ev.lines /\ there' = Ev.there
  \/ IsEvent("Load") /\ UNCHANGED <<F, there>>
       /\ (IF there = 0 THEN Ev.rc # 0
           ELSE LET r == Load(F, Ev.t) IN (Ev.rc = 0) = (r.rc = 0) /\ (Ev.rc = 0 => Ev.out = [i \in 1..Len(r.list) |-> [id |-> r.list[i].id, h |-> r.list[i].h, from |-> r.list[i].from, to |-> r.list[i].to]]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
