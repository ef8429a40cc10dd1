---------------------------- MODULE AntennaTrace ----------------------------
EXTENDS AntennaPcv, TraceIO
Abs(x) == IF x < 0 THEN -x ELSE x
vars == <<l>>
TraceInit == l = 1
TraceNext ==
  \/ IsEvent("Pcv") /\ (IF Inside(Ev.z) /\ Ev.nudge = 0 THEN Ev.oob = 0 /\ Abs(Ev.v - Pcv(Table(Ev.a, Ev.f), Ev.z)) <= 1
                        ELSE Ev.oob # 0)             \* nudge: the smallest step out of the table's end
  \/ IsEvent("Pco") /\ Ev.e = 0 /\ Ev.n = 0 /\ Ev.u = Up(Ev.a, Ev.f) /\ Ev.v = <<0, 0, Up(Ev.a, Ev.f)>>
  \/ IsEvent("Ion") /\ Abs(Ev.v[1]) <= 1 /\ Abs(Ev.v[2]) <= 1 /\ Abs(Ev.v[3] - IonFree(Ev.a)) <= 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
