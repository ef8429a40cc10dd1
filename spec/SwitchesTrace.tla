--------------------------- MODULE SwitchesTrace ---------------------------
EXTENDS Switches, TraceIO
VARIABLES meters
vars == <<sw, swc, meters, l>>
TraceInit == Init /\ meters = 0 /\ l = 1
Seen == Ev.sw = sw' /\ Ev.swc = swc' /\ Ev.meters = meters'
TraceNext ==
  \/ IsEvent("New") /\ sw' = All(1) /\ swc' = All(1) /\ meters' = 0 /\ Seen
  \/ IsEvent("Set") /\ Set(Ev.i, Ev.v) /\ UNCHANGED meters /\ Seen
  \/ IsEvent("Null") /\ Null(Ev.i) /\ UNCHANGED meters /\ Seen
  \/ IsEvent("On") /\ On(Ev.i) /\ UNCHANGED meters /\ Seen
  \/ IsEvent("UseAp") /\ UseAp /\ UNCHANGED meters /\ Seen
  \/ IsEvent("Meters") /\ meters' = 1 /\ UNCHANGED <<sw, swc>> /\ Seen
  \* a copy has the same switches, and setting a switch of the original does not reach it
  \/ IsEvent("Copy") /\ UNCHANGED <<sw, swc, meters>> /\ Seen
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
