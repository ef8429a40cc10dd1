----------------------------- MODULE ThirdBody ------------------------------
(* Third bodies in exact geometry: s position of the body, d = s - r from the  *)
(* satellite to it, S and D their (integer) lengths.  With a gravitational     *)
(* parameter of g * S^3 * D^3 the tidal acceleration and its gradient times    *)
(* D^2 are integers.                                                           *)
EXTENDS Integers, Sequences
Cube(x) == x * x * x
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Geometry(b, r) == b.S > 0 /\ b.D > 0 /\ Sq(b.s) = b.S * b.S /\ Sq(b.d) = b.D * b.D /\ \A i \in 1..3 : b.s[i] - b.d[i] = r[i]
\* towards the body, less what it does to the Earth itself
Accel(b) == [i \in 1..3 |-> b.g * (Cube(b.S) * b.d[i] - Cube(b.D) * b.s[i])]
\* D^2 times the gradient, by rows
Grad(b) == [k \in 1..9 |-> LET i == (k - 1) \div 3 + 1 j == ((k - 1) % 3) + 1 IN b.g * Cube(b.S) * (3 * b.d[i] * b.d[j] - (IF i = j THEN b.D * b.D ELSE 0))]
\* terrestrial time of an instant of atomic time: <<days, milliseconds>> since noon of the first day of 2000
TT(day, ms) == LET x == ms + 32184 - 43200000 IN IF x < 0 THEN <<day - 51544 - 1, x + 86400000>> ELSE IF x < 86400000 THEN <<day - 51544, x>> ELSE <<day - 51543, x - 86400000>>
\* ---- apparent places: lon, lat (seconds of arc, ecliptic), dist (millionths of the mean), days since J2000
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(x) == LET y == x % 1296000 IN IF y > 648000 THEN y - 1296000 ELSE y
Precession(days) == (50291 * (days \div 10)) \div 36525
Near(a, b, tol) == Abs(Wrap(a - b)) <= tol
\* the Sun by its three series (one refers to the equinox of 2000 and holds the perigee, which moves 1162" in a century)
SunAgree(days, m, v, c) ==
  /\ Near(m.lon + Precession(days), v.lon, 60 + (12 * Abs(days)) \div 365) /\ Near(c.lon, v.lon, 30)
  /\ \A x \in {m, v, c} : Abs(x.lat) <= 10 /\ x.dist >= 983000 /\ x.dist <= 1017100
  /\ Abs(m.dist - v.dist) <= 60 + Abs(days) \div 365 /\ Abs(c.dist - v.dist) <= 30
\* the Moon by its two series (several minutes of arc each)
MoonAgree(days, a, v) ==
  /\ Near(a.lon + Precession(days), v.lon, 1300) /\ Abs(a.lat - v.lat) <= 900 /\ Abs(a.dist - v.dist) <= 3000
  /\ \A x \in {a, v} : Abs(x.lat) <= 19200 /\ x.dist >= 923000 /\ x.dist <= 1060000
=============================================================================
