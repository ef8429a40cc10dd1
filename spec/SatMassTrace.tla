---------------------------- MODULE SatMassTrace ----------------------------
EXTENDS SatMass, TraceIO
VARIABLE F
\* nominal mass (0.1 g) and centre of gravity (0.1 mm) of Jason-3 and Cryosat-2 (DORISSatelliteModels.pdf)
Nominal == << <<5096000, 10023, 0, -21>>, <<7246000, 16312, 112, 137>> >>
TraceInit == MInit /\ F = <<>> /\ l = 1
TraceNext ==
  \/ IsEvent("File") /\ F' = Ev.lines /\ UNCHANGED <<st, pos, cur>>
  \/ IsEvent("Query") /\ UNCHANGED <<st, pos, cur, F>>
       /\ \E w \in (IF Ev.there = 1 THEN Outcomes(F, Ev.q) ELSE {[ok |-> FALSE, v |-> <<>>]}) :
             /\ w.ok = (Ev.rc = 0) /\ w.ok = (Ev.rc2 = 0)
             /\ (w.ok => /\ Ev.v = w.v
                         /\ \A i \in 1..4 : Ev.ini[i] = Nominal[Ev.sat][i] /\ Ev.tot[i] = Ev.ini[i] + w.v[i])      \* mass_cog: initial value plus correction
TraceSpec == TraceInit /\ [][TraceNext]_<<st, pos, cur, F, l>>
=============================================================================
