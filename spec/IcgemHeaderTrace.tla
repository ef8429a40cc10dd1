-------------------------- MODULE IcgemHeaderTrace --------------------------
EXTENDS IcgemHeader, TraceIO
TraceInit == HInit /\ l = 1
TraceNext ==
  \/ /\ IsEvent("Header")
     /\ LET r == HeaderOf(Ev.lines)
        IN  /\ h' = r /\ pos' = Len(Ev.lines)
            /\ (Ev.rc = 0) <=> (r.st = "ok")
            /\ Ev.rc = 0 => /\ Ev.deg = r.deg /\ Ev.gm = r.gm /\ Ev.re = r.re
                            /\ (Ev.hasnorm = 1 => Ev.norm = r.norm)
                            /\ \A w \in Texts : Ev.txt[w] = r.txt[w]
                            /\ Ev.c00 = Ev.first      \* the data section starts right after the header
  \/ /\ IsEvent("NoFile") /\ Ev.rc # 0 /\ UNCHANGED hvars
TraceSpec == TraceInit /\ [][TraceNext]_<<h, pos, l>>
=============================================================================
