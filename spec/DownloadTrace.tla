--------------------------- MODULE DownloadTrace ---------------------------
EXTENDS Download, TraceIO
VARIABLES disk, locked
TraceInit == disk = <<>> /\ locked = {} /\ l = 1
TraceNext ==
  \/ IsEvent("Start") /\ disk' = Ev.fs /\ locked' = {}
  \/ IsEvent("Put")  /\ disk' = [disk EXCEPT ![Ev.t] = Ev.b] /\ UNCHANGED locked /\ Ev.fs = disk'
  \/ IsEvent("Lock") /\ locked' = locked \cup {Ev.t} /\ UNCHANGED disk /\ Ev.fs = disk
  \/ IsEvent("Get")  /\ UNCHANGED locked
     /\ disk' = Ev.fs /\ DOMAIN Ev.fs = DOMAIN disk /\ Ev.extra = 0
     /\ (\A t \in DOMAIN disk : t # Ev.t => Ev.fs[t] = disk[t])
     /\ Allowed(disk[Ev.t], Ev.t \in locked, Ev.force, Ev.r, Ev.res, Ev.fs[Ev.t])
     /\ AskedOk(disk[Ev.t], Ev.force, Ev.res, Ev.asked)
TraceSpec == TraceInit /\ [][TraceNext]_<<disk, locked, l>>
=============================================================================
