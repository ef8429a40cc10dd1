----------------------------- MODULE SurfaceMC -----------------------------
EXTENDS Surface, FiniteSets
Spec == Init /\ [][Next]_<<r, v>>
L2 == U[1] * U[1] + U[2] * U[2] + U[3] * U[3]
Lens == {k \in 1..12 : Is(k, U)}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* drag acts against the motion through the air, does nothing to a body carried by it (one moving at w x r has no U)
Against == \A k \in Lens : Dot(Drag(k), U) = -k * L2 /\ \A i \in 1..3 : Cross(Drag(k), U)[i] = 0
\* homogeneous of degree two in the velocity through the air
Euler == \A k \in Lens : \A i \in 1..3 : Dot(DragV(k)[i], U) = 2 * k * Drag(k)[i]
\* carried along the circle of the air the force only turns: moving in place by w x r while the velocity turns too
Carried == \A k \in Lens : \A i \in 1..3 : Dot(DragR(k, <<0, 0, 0>>)[i], Cross(<<0, 0, 1>>, r)) + Dot(DragV(k)[i], Cross(<<0, 0, 1>>, v)) = k * Cross(<<0, 0, 1>>, Drag(k))[i]
\* turning back keeps lengths
Turns == \A a \in 1..3, k \in 0..11 : Dot(Back(a, k, U), Back(a, k, U)) = 25 * L2
LightLaw == \A k \in Lens : LightR(U, k)[1][1] + LightR(U, k)[2][2] + LightR(U, k)[3][3] = 0 /\ \A i \in 1..3 : Dot(LightR(U, k)[i], U) = -2 * L2 * U[i]
=============================================================================
