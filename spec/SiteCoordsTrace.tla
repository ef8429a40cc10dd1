--------------------------- MODULE SiteCoordsTrace ---------------------------
EXTENDS SiteCoords, TraceIO
VARIABLES f
vars == <<f, l>>
Abs(x) == IF x < 0 THEN -x ELSE x
TraceInit == f = <<>> /\ l = 1
\* displacement in 1/100000 m: velocity v (1/10000 m per year of 365.25 days) over the time from epoch e to epoch t (days, seconds)
Div(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Move(v, e, t) == Div(v * (t[1] - e[1]) * 40, 1461) + Div(v * (t[2] - e[2]) * 10, 31557600)
\* x: reported coordinate, metres and 1/100000 m; q: the estimates of that axis
Coord(x, q, t) == LET p == f.est[q[1]] n == p.l + Move(f.est[q[2]].h, p.t, t) h == p.h + (n \div 100000) lo == n % 100000 IN
  \/ x[1] = h /\ Abs(x[2] - lo) <= 3
  \/ x[1] = h + 1 /\ lo - x[2] >= 100000 - 3
  \/ x[1] = h - 1 /\ x[2] - lo >= 100000 - 3
TraceNext ==
  \/ IsEvent("File") /\ f' = [sites |-> Ev.sites, est |-> Ev.est]
  \/ IsEvent("Ask") /\ UNCHANGED f
       /\ LET a == Answer(f, Ev.req, Ev.strict = 1) IN
          /\ (IF Ev.strict = 0 /\ Patchy(f, Ev.req) THEN TRUE ELSE (Ev.rc = 0) = (a.rc = 0))
          /\ (Ev.rc = 0 =>
                /\ [i \in 1..Len(Ev.out) |-> Ev.out[i].id] = a.list
                /\ \A i \in 1..Len(a.list) : \A k \in 1..3 : Coord(Ev.out[i].x[k], Pair(f.est, a.list[i], Axes[k]), Ev.t))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
