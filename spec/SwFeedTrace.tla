--------------------------- MODULE SwFeedTrace ---------------------------
EXTENDS SwFeed, TraceIO
vars == <<head, lines, pos, win, day, l>>
D == Ev.d0 + (Ev.sec \div 86400)
S == (Ev.sec % 86400) \div 10800
TraceInit == head = "none" /\ lines = <<>> /\ pos = 0 /\ win = <<>> /\ day = -1 /\ l = 1
TraceNext ==
  \/ IsEvent("File") /\ File(Ev.head, Ev.lines) /\ UNCHANGED <<pos, win, day>>
  \* a feed starts with nothing loaded; when it cannot be made there is none
  \/ IsEvent("New") /\ UNCHANGED <<head, lines>>
       /\ \/ Ev.name > 255 /\ Ev.rc # 0 /\ pos' = 0 /\ win' = <<>> /\ day' = -1     \* names of more than 255 characters may be refused
          \/ LET r == Scan(head, lines, 0, D - 3, 4) IN
                /\ (Ev.rc = 0) = r.ok /\ pos' = r.pos /\ win' = r.rows /\ day' = (IF r.ok THEN D ELSE -1)
                /\ (r.ok => Ev.out = Walk(r.rows, S))
  \/ IsEvent("Update") /\ Update(D, S, Ev.rc = 0, Ev.out) /\ Ev.pd = Ev.d0 /\ Ev.ps = Ev.sec
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
