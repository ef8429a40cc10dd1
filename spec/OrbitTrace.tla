---------------------------- MODULE OrbitTrace ----------------------------
EXTENDS Orbit, TraceIO
vars == <<orb, eleE, yE, l>>
O0 == [e |-> 1, i |-> 1, O |-> 0, w |-> 0]
TraceInit == orb = O0 /\ eleE = 0 /\ yE = 0 /\ l = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
\* the code's value in thousandths of the unit of Pos and Vel
Vec(p, x) == \A k \in 1..3 : Near(p[k], 1000 * x[k], 60)
SeenState(E) == Vec(Ev.r, Pos(orb, E)) /\ Vec(Ev.w, Vel(orb, E)) /\ Ev.ok = 0
\* <<cos, sin>> of an angle of the code, 10^6 fifths; in its range
Is(x, k) == Near(x[1], 1000000 * C(k), 10) /\ Near(x[2], 1000000 * S(k), 10)
SeenElements(E) == Near(Ev.a, 100000000, 20) /\ Near(Ev.e, 1000000 * En(orb), 10) /\ Is(Ev.i, orb.i) /\ Is(Ev.O, orb.O) /\ Is(Ev.w, orb.w) /\ Is(Ev.E, E) /\ Ev.range = 1
\* angular momentum, inclination, node, eccentricity, argument of perigee, true anomaly
SeenKepler(E) ==
  /\ Near(Ev.h, 1000000 * Fn(orb), 10) /\ Near(Ev.e, 1000000 * En(orb), 10) /\ Is(Ev.i, orb.i) /\ Is(Ev.O, orb.O) /\ Is(Ev.w, orb.w)
  /\ Near(Ev.t[1] * Dist(orb, E), 1000000 * PlaneR(orb, E)[1], 100) /\ Near(Ev.t[2] * Dist(orb, E), 1000000 * PlaneR(orb, E)[2], 100)
\* the right-hand side: what each partial derivative is, by a rotation of the state or by a step along the orbit
Zx(p) == <<-p[2], p[1], 0>>
SeenPartials(E) ==
  /\ Ev.fd <= 200
  /\ Vec(Ev.Or, Zx(Pos(orb, E))) /\ Vec(Ev.Ow, Zx(Vel(orb, E)))          \* node: rotation about the pole
  /\ Vec(Ev.Mr, Vel(orb, E))                                             \* mean anomaly: along the velocity
TraceNext ==
  \/ IsEvent("Make") /\ Make([e |-> Ev.e, i |-> Ev.i, O |-> Ev.O, w |-> Ev.w], Ev.E)
  \/ IsEvent("State") /\ ToState(Ev.E) /\ SeenState(Ev.E)
  \/ IsEvent("Move") /\ Move(Ev.E) /\ SeenState(Ev.E)
  \/ IsEvent("Elements") /\ ToElements /\ SeenElements(yE)
  \/ IsEvent("Kepler6") /\ Proper(orb) /\ SeenKepler(yE) /\ UNCHANGED <<orb, eleE, yE>>
  \* back into the orbital plane
  \/ IsEvent("Plane") /\ Vec(Ev.r, Append(PlaneR(orb, yE), 0)) /\ Vec(Ev.w, Append(PlaneW(orb, yE), 0)) /\ UNCHANGED <<orb, eleE, yE>>
  \/ IsEvent("Partials") /\ Proper(orb) /\ SeenPartials(Ev.E) /\ UNCHANGED <<orb, eleE, yE>>
  \* state transition matrix from the state to E: moves the state, is symplectic, agrees with the partials, is the identity over no time, composes
  \/ IsEvent("Transition") /\ Move(Ev.E) /\ SeenState(Ev.E) /\ Ev.symp <= 100 /\ Ev.chain <= 100 /\ Ev.ident <= 10 /\ Ev.comp <= 100
  \* Kepler's equation on the grid, and anywhere (residual in 10^-9 rad)
  \/ IsEvent("Kepler") /\ UNCHANGED <<orb, eleE, yE>> /\ Ev.ok = 0 /\ Is(Ev.x, Ev.E)
  \/ IsEvent("KeplerAny") /\ UNCHANGED <<orb, eleE, yE>> /\ (Ev.ok = 0 => Abs(Ev.res) <= 20) /\ (Ev.milli <= 990 => Ev.ok = 0)
  \* right ascension and declination
  \/ IsEvent("RaDec") /\ UNCHANGED <<orb, eleE, yE>> /\ Ev.range = 1 /\ Is(Ev.dec, Ev.d) /\ (Ev.d \notin {3, 9} => Is(Ev.ra, Ev.a))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
