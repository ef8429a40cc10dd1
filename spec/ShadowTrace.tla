---------------------------- MODULE ShadowTrace ----------------------------
EXTENDS Shadow, TraceIO
VARIABLES last        \* the last place looked at with the disc model: moving outwards at the same distance behind the Earth never gets darker
vars == <<last, l>>
None == [s |-> 1, rr |-> 0, f |-> 0]
TraceInit == last = None /\ l = 1
\* light in thousandths
Is(x, v) == IF x = 1 THEN v = 1000 ELSE IF x = 0 THEN v = 0 ELSE IF x = 2 THEN v = 500 ELSE v \in {0, 500, 1000}
Between(x, v) == IF x = 1 THEN v = 1000 ELSE IF x = 0 THEN v = 0 ELSE v >= 0 /\ v <= 1000
\* across the penumbra: <<how far from its middle, in thousandths of half its width; the light there, in thousandths>>:
\* 1 - (acos x - x sqrt(1 - x x)) / pi of the disc of the Sun is above the (all but straight) edge of the Earth
Lit == {<<-980, 3>>, <<-866, 29>>, <<-707, 91>>, <<-500, 196>>, <<-259, 337>>, <<0, 500>>, <<259, 663>>, <<500, 804>>, <<707, 909>>, <<866, 971>>, <<980, 997>>}
Off(t, x) == ((t * 43) \div 1000) + ((((t * 465) \div 100) * x) \div 1000)     \* that place, thousandths of a unit outside the edge of the Earth
Edge(t, x) == LET d == Off(t, x) IN 2 * d + ((d \div 10) * (d \div 10)) \div 10000   \* its distance from the axis squared, minus 1000 squared
Part(s, a, b, v) == s < 0 => \A p \in Lit : LET e == Edge(-s, p[1]) q == R2(a, b) - 1000000 tol == 8 + ((-s) \div 1000) IN
    /\ q >= e => v >= p[2] - tol
    /\ q <= e => v <= p[2] + tol
TraceNext ==
  /\ IsEvent("Shadow")
  /\ LET s == Ev.s a == Ev.a b == Ev.b cyl == Cylinder(s, a, b) con == Cone(s, a, b) IN
     /\ Is(cyl, Ev.cyl) /\ Is(cyl, Ev.cyle) /\ Ev.cyl # 500 /\ Ev.cyle # 500
     /\ Is(con, Ev.cone)
     /\ Between(con, Ev.disc)
     /\ Part(s, a, b, Ev.disc)
     /\ Is(IF Ev.eq = 1 THEN Flat(s, a, b) ELSE Oblate(s, a, b), Ev.flat) /\ Ev.flat # 500
     /\ ((last.s = s /\ last.rr <= R2(a, b)) => Ev.disc >= last.f)
     /\ last' = [s |-> s, rr |-> R2(a, b), f |-> Ev.disc]
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
