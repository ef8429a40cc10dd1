---------------------------- MODULE ObsCorrTrace ----------------------------
EXTENDS ObsCorr, TraceIO
VARIABLES last \* path and corrected observation of the one before
vars == <<last, l>>
TraceInit == last = <<0, 0>> /\ l = 1
TraceNext ==
  \* corr: correction (cycles; the common unit of cycles is given by the scenario)
  \/ IsEvent("Iono") /\ Ev.corr = F2 * Ev.k /\ L1(Ev.g, Ev.k) + Ev.corr = F1 * Ev.g
       /\ (L1(Ev.g, Ev.k) + Ev.corr) - last[2] = F1 * (Ev.g - last[1]) /\ last' = <<Ev.g, L1(Ev.g, Ev.k) + Ev.corr>>
  \* any two observations: twice the sum of both halves of the correction is exact
  \/ IsEvent("Any") /\ Ev.clean = Clean(Ev.a, Ev.b) /\ last' = <<0, 0>>
  \/ IsEvent("Clock") /\ last' = <<0, 0>> /\ Sq(Ev.p) = Ev.n * Ev.n
       /\ Ev.central = Central(Ev.u, Ev.v)
       /\ Abs(Ev.flat - Flat(Ev.u, Ev.v, Ev.j, Ev.p, Ev.n)) <= Band(Ev.u, Ev.j, Ev.p, Ev.n)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
