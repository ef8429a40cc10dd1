--------------------------- MODULE ThirdBodyTrace ---------------------------
EXTENDS ThirdBody, TraceIO
VARIABLES last
vars == <<last, l>>
TraceInit == last = <<>> /\ l = 1
Place(x) == [lon |-> x[1], lat |-> x[2], dist |-> x[3]]
TraceNext ==
  \* calls: what the ephemeris was asked: <<body, centre, frame and correction right, days, ms>>
  \/ IsEvent("Third") /\ last' = <<Ev.sunacc>>
       /\ Geometry(Ev.sun, Ev.r) /\ Geometry(Ev.moon, Ev.r)
       /\ Ev.sunacc = [i \in 1..3 |-> 1000 * Accel(Ev.sun)[i]] /\ Ev.moonacc = [i \in 1..3 |-> 1000 * Accel(Ev.moon)[i]]
       /\ Ev.sunpos = Ev.sun.s /\ Ev.grad = Grad(Ev.moon)
       /\ \A i \in 1..Len(Ev.calls) : Ev.calls[i][1] \in {10, 301} /\ Ev.calls[i][2] = 399 /\ Ev.calls[i][3] = 1
                                      /\ LET t == TT(Ev.day, Ev.ms) IN (Ev.calls[i][4] - t[1]) * 86400000 + Ev.calls[i][5] - t[2] \in {-1, 0, 1}
  \/ IsEvent("Places") /\ last' = <<Ev.days>>
       /\ SunAgree(Ev.days, Place(Ev.sm), Place(Ev.sv), Place(Ev.sc)) /\ MoonAgree(Ev.days, Place(Ev.ma), Place(Ev.mv))
       /\ Ev.same = 1
       \* seasons: the Sun's longitude (degrees); eclipses: the Moon before or behind the Sun
       /\ (Ev.season >= 0 => Near(Ev.sv[1], Ev.season * 3600, 90) /\ Near(Ev.sc[1], Ev.season * 3600, 90))
       /\ (Ev.eclipse >= 0 => Near(Ev.mv[1], Ev.sv[1] + Ev.eclipse * 3600, 2400) /\ Near(Ev.ma[1], Ev.sm[1] + Ev.eclipse * 3600, 2400) /\ Abs(Ev.mv[2]) <= 6000 /\ Abs(Ev.ma[2]) <= 6000)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
