---------------------------- MODULE IntrpTrace ----------------------------
EXTENDS Intrp, TraceIO
VARIABLE t
TraceInit == t = <<>> /\ l = 1
TraceNext ==
  \/ IsEvent("Table") /\ t' = Ev.t
  \/ IsEvent("Ask") /\ UNCHANGED t /\ Ev.st = Status(t, Ev.q) /\ Matches(Ev.k, t, Ev.q, Ev.v)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l>>
=============================================================================
