---------------------------- MODULE GfcConvTrace ----------------------------
EXTENDS GfcConv, TraceIO
VARIABLES file
vars == <<file, l>>
TraceInit == file = <<>> /\ l = 1
TraceNext ==
  \/ IsEvent("File") /\ file' = Ev.lines
  \* words of every line written (blank lines at the end left out); rc: 0, 1 or -1 (does not end)
  \/ IsEvent("Convert") /\ UNCHANGED file
       /\ IF End(file) = 0 THEN Ev.rc = 1 ELSE Ev.rc = 0 /\ Ev.out = Converted(file)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
