------------------------------- MODULE Orbit -------------------------------
\* Elliptic orbits whose angles and eccentricity have rational sines and cosines: positions, velocities and elements are exact integers.
\* Two registers, as in a program: elements valid at one eccentric anomaly (eleE) and a state valid at another (yE), of the same orbit.
EXTENDS Integers, Sequences
\* <<cosine, sine>> in fifths, once around the circle
Ang == << <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> >>
N == Len(Ang)
\* <<e, sqrt(1 - e^2), denominator>>
Ecc == << <<0, 1, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<7, 24, 25>> >>
C(k) == Ang[k + 1][1]
S(k) == Ang[k + 1][2]
VARIABLES orb, eleE, yE      \* orb: [e, i, O, w] indices; anomalies are indices too
Orbits == [e : 0..(Len(Ecc) - 1), i : 0..6, O : 0..(N - 1), w : 0..(N - 1)]
\* columns of the rotation from the orbital plane (x towards the perigee), in 125ths
Px(o) == 5 * C(o.O) * C(o.w) - S(o.O) * S(o.w) * C(o.i)
Py(o) == 5 * S(o.O) * C(o.w) + C(o.O) * S(o.w) * C(o.i)
Pz(o) == 5 * S(o.w) * S(o.i)
Qx(o) == -5 * C(o.O) * S(o.w) - S(o.O) * C(o.w) * C(o.i)
Qy(o) == -5 * S(o.O) * S(o.w) + C(o.O) * C(o.w) * C(o.i)
Qz(o) == 5 * C(o.w) * S(o.i)
Hx(o) == 5 * S(o.O) * S(o.i)
Hy(o) == -5 * C(o.O) * S(o.i)
Hz(o) == 25 * C(o.i)
En(o) == Ecc[o.e + 1][1]
Fn(o) == Ecc[o.e + 1][2]
Dn(o) == Ecc[o.e + 1][3]
\* in the orbital plane: position / a, and velocity * distance / sqrt(GM a); in (5 Dn)ths
PlaneR(o, E) == <<C(E) * Dn(o) - 5 * En(o), Fn(o) * S(E)>>
PlaneW(o, E) == <<-S(E) * Dn(o), Fn(o) * C(E)>>
Rot(o, p) == <<Px(o) * p[1] + Qx(o) * p[2], Py(o) * p[1] + Qy(o) * p[2], Pz(o) * p[1] + Qz(o) * p[2]>>
\* the same in space, in (625 Dn)ths
Pos(o, E) == Rot(o, PlaneR(o, E))
Vel(o, E) == Rot(o, PlaneW(o, E))
\* distance / a in (5 Dn)ths
Dist(o, E) == 5 * Dn(o) - En(o) * C(E)
\* elements exist: the node and the perigee are defined
Proper(o) == o.e # 0 /\ o.i \in 1..5
Make(o, E) == orb' = o /\ eleE' = E /\ yE' = E
\* state from the elements, E later (any number of revolutions in between)
ToState(E) == yE' = E /\ UNCHANGED <<orb, eleE>>
\* state from the state
Move(E) == Proper(orb) /\ yE' = E /\ UNCHANGED <<orb, eleE>>
\* elements from the state
ToElements == Proper(orb) /\ eleE' = yE /\ UNCHANGED <<orb, yE>>
=============================================================================
