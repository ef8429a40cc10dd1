--------------------------- MODULE SwDataTrace ---------------------------
EXTENDS SwData, TraceIO
vars == <<head, lines, pos, win, l>>
TraceInit == head = "none" /\ lines = <<>> /\ pos = 0 /\ win = <<>> /\ l = 1
TraceNext ==
  \/ IsEvent("New") /\ pos' = 0 /\ win' = Ev.win /\ head' = "none" /\ lines' = <<>>
  \/ IsEvent("File") /\ File(Ev.head, Ev.lines) /\ UNCHANGED <<pos, win>>
  \/ IsEvent("Read") /\ Read(Ev.d, Ev.b, Ev.a, Ev.rc = 0, Ev.win)
  \/ IsEvent("Next") /\ Next1(Ev.d, Ev.n, Ev.rc = 0, Ev.win)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
