------------------------------ MODULE ShadowMC ------------------------------
EXTENDS Shadow, TLC
CONSTANTS Step
VARIABLES s, a
vars == <<s, a>>
Init == s = -20000 /\ a = 0
Next == (s' = s + Step /\ s < 3000 /\ a' = a) \/ (a' = a + 1 + Step \div 50 /\ a < 1500 /\ s' = s)
Spec == Init /\ [][Next]_vars
Range == Cylinder(s, a, 0) \in {-1, 0, 1} /\ Cone(s, a, 0) \in {-1, 0, 1, 2}
\* the umbra lies inside the cylinder and the cylinder inside the penumbra
Nested == /\ Cone(s, a, 0) = 0 => Cylinder(s, a, 0) # 1
          /\ Cone(s, a, 0) = 1 => Cylinder(s, a, 0) # 0
          /\ Cylinder(s, a, 0) = 1 /\ s < 0 => Cone(s, a, 0) # 0
\* farther from the axis is never darker; the shadow of a sphere is round
Monotone == LET f(x) == Cone(s, x, 0) IN f(a) = 1 => f(a + 1) = 1
Round == a % 5 = 0 => Cylinder(s, (a \div 5) * 3, (a \div 5) * 4) = Cylinder(s, a, 0) /\ Cone(s, (a \div 5) * 3, (a \div 5) * 4) = Cone(s, a, 0)
FlatOblate == Oblate(s, 0, a) # -1 /\ Flat(s, 0, a) # -1 => Oblate(s, 0, a) = Flat(s, 0, a)
=============================================================================
