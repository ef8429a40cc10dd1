------------------------------ MODULE OrbitMC ------------------------------
EXTENDS Orbit, TLC, Json
CONSTANTS H, Emit, EccSet
VARIABLES hist
vars == <<orb, eleE, yE, hist>>
I == orb \in [e : EccSet, i : 0..6, O : 0..(N - 1), w : 0..(N - 1)] /\ eleE \in 0..(N - 1) /\ yE = eleE /\ hist = <<>>
Act(o) == Len(hist) < H /\ hist' = Append(hist, o)
Next == \/ \E E \in 0..(N - 1) : (ToState(E) /\ Act(<<"S", E>>)) \/ (Move(E) /\ Act(<<"P", E>>))
        \/ ToElements /\ Act(<<"K">>)
Spec == I /\ [][Next]_vars
\* histories of calls: whether one is possible depends on the orbit only through Proper
GenSpec == (orb = [e |-> 1, i |-> 1, O |-> 0, w |-> 0] /\ eleE = 0 /\ yE = 0 /\ hist = <<>>) /\ [][Next]_vars
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
R == Pos(orb, yE)
V == Vel(orb, yE)
\* the rotation is one
Orthonormal == LET p == <<Px(orb), Py(orb), Pz(orb)>> q == <<Qx(orb), Qy(orb), Qz(orb)>> h == <<Hx(orb), Hy(orb), Hz(orb)>> IN
  Dot(p, p) = 15625 /\ Dot(q, q) = 15625 /\ Dot(p, q) = 0 /\ \A k \in 1..3 : Cross(p, q)[k] = 125 * h[k]
\* distance, orbit equation
Distance == Dot(R, R) = (125 * Dist(orb, yE)) * (125 * Dist(orb, yE))
\* energy: (v dist)^2 = GM a (1 - e cos E)(1 + e cos E)
Energy == Dot(V, V) = 15625 * Dist(orb, yE) * (5 * Dn(orb) + En(orb) * C(yE))
\* angular momentum does not depend on the place in the orbit
Momentum == LET r == PlaneR(orb, yE) v == PlaneW(orb, yE) IN r[1] * v[2] - r[2] * v[1] = 5 * Fn(orb) * Dist(orb, yE)
EmitBeh == (Emit /\ Len(hist) = H) => PrintT("BEH " \o ToJson(hist))
=============================================================================
