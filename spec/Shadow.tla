------------------------------- MODULE Shadow -------------------------------
\* Shadow of the Earth. Lengths in thousandths of the Earth's radius: s along the direction of the Sun (negative: behind the Earth),
\* a and b across it. The Sun is at 1 AU.
EXTENDS Integers, Sequences
R2(a, b) == a * a + b * b
\* edges of the cones, in ten-thousandths of the unit: (Sun's radius -+ Earth's radius) / AU is the sine of the half-angle
Umbra(d) == 10000106 - ((d * 46121) \div 1000)       \* narrows behind the Earth
Penumbra(d) == 10000110 + ((d * 46975) \div 1000)    \* widens
\* is the distance across below / above w ten-thousandths (w <= 46000 * 1000)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m)
\* distance across, in hundredths (rounded down)
Across(a, b) == LET n == R2(a, b) r == Root(n, 0, 2000) IN 100 * r + (100 * (n - r * r)) \div (2 * r + 1)
Margin == 3
Inside(r, w) == r <= (w \div 100) - Margin
Outside(r, w) == r >= (w \div 100) + Margin
\* 0: shadow, 1: light, 2: in between, -1: too close to an edge to tell
Cylinder(s, a, b) == LET r == Across(a, b) IN IF s > 0 THEN 1 ELSE IF Outside(r, 10000000) THEN 1 ELSE IF Inside(r, 10000000) /\ s < 0 THEN 0 ELSE -1
Cone(s, a, b) == LET r == Across(a, b) IN
  IF s >= 0 THEN (IF Outside(r, 10000110) THEN 1 ELSE -1)
  ELSE IF Inside(r, Umbra(-s)) THEN 0 ELSE IF Outside(r, Penumbra(-s)) THEN 1 ELSE IF Outside(r, Umbra(-s)) /\ Inside(r, Penumbra(-s)) THEN 2 ELSE -1
\* flattened Earth, Sun in the plane of the equator, b along the axis: (1 + f)^2 = 1.006717
Flat(s, a, b) == LET q == a * a + b * b + (((b * b) \div 10) * 6717) \div 100000 IN IF s > 0 THEN 1 ELSE IF q >= 1000060 THEN 1 ELSE IF q <= 999900 /\ s < 0 THEN 0 ELSE -1
\* flattened Earth, Sun anywhere
Oblate(s, a, b) == LET r == Across(a, b) IN IF s > 0 /\ s > 40 THEN 1 ELSE IF Outside(r, 10000000) THEN 1 ELSE IF Inside(r, 9966000) /\ s < -40 THEN 0 ELSE -1
=============================================================================
