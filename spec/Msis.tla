------------------------------- MODULE Msis -------------------------------
\* NRLMSISE-00 as its callers see it: a function of the inputs that are in use, whatever was computed before and by which instance.
EXTENDS Integers, Sequences
\* Inputs of a call: a record
\*   kind 0 gtd7 / 1 gtd7d, mass, meters, year, doy, sec, alt [m], lat, lon, lst, fa (81-day flux), f (daily flux), ap, aparr (7), set (value given to each switch)
Main(v) == IF v >= 0 THEN v % 2 ELSE -((-v) % 2)
Cross(v) == IF v = 1 \/ v = 2 THEN 1 ELSE 0
\* main value / fully off, of the switch with number i counted from 0
S(x, i) == Main(x.set[i + 1])
Off(x, i) == Main(x.set[i + 1]) = 0 /\ Cross(x.set[i + 1]) = 0
AllOff(x) == \A i \in 0..24 : Off(x, i)
Array(x) == S(x, 8) = -1
Neutral(c, v) == IF c THEN 0 ELSE v
\* the inputs in use: what a switched-off effect would need, the year, and whichever geomagnetic index is not asked for, do not matter
Crossed(x, i) == Cross(x.set[i + 1]) # 0
UtUsed(x) == S(x, 9) # 0 /\ (S(x, 11) # 0 \/ S(x, 12) # 0)
LonUsed(x) == S(x, 9) # 0 /\ (S(x, 10) # 0 \/ (Crossed(x, 10) /\ UtUsed(x)))
LstUsed(x) == S(x, 6) # 0 \/ S(x, 7) # 0 \/ S(x, 13) # 0 \/ (S(x, 8) # 0 /\ Crossed(x, 6))
FluxUsed(x) == ~Off(x, 0)
\* every use of the day of year goes through an annual or semi-annual term (2..5) or one of their cross terms
DoyUsed(x) == \E i \in 2..5 : ~Off(x, i)
ApUsed(x) == ~Array(x) /\ (S(x, 8) # 0 \/ (S(x, 9) # 0 /\ S(x, 12) # 0 /\ (Crossed(x, 10) \/ Crossed(x, 11))))
Key(x) == <<x.kind, x.mass, x.meters, x.alt, x.set,
  Neutral(~DoyUsed(x), x.doy), Neutral(~UtUsed(x), x.sec), Neutral(AllOff(x), x.lat), Neutral(~LonUsed(x), x.lon), Neutral(~LstUsed(x), x.lst),
  Neutral(~FluxUsed(x), x.fa), Neutral(~FluxUsed(x), x.f), Neutral(~ApUsed(x), x.ap), IF Array(x) THEN x.aparr ELSE <<>>>>
\* number of each species in the result, counted from 1: He O N2 O2 Ar (total) H N anomalous O
SpeciesOf(mass) == CASE mass = 4 -> 1 [] mass = 16 -> 2 [] mass = 28 -> 3 [] mass = 32 -> 4 [] mass = 40 -> 5 [] mass = 1 -> 7 [] mass = 14 -> 8 [] mass = 17 -> 9 [] OTHER -> 0
Weight == <<4, 16, 28, 32, 40, 0, 1, 14, 16>>
\* Altitude zones; the lower ones need more of the profile
Thermo(x) == x.alt >= 72500
\* decimal values <<mantissa of 8 digits, exponent>>, equal to tol units of the last digit
Dist(a, b) == IF a >= b THEN a - b ELSE b - a
Near(a, b, tol) ==
  \/ (a[2] = b[2] /\ Dist(a[1], b[1]) <= tol)
  \/ (a[2] = b[2] + 1 /\ Dist(10 * a[1], b[1]) <= 10 * tol)
  \/ (b[2] = a[2] + 1 /\ Dist(10 * b[1], a[1]) <= 10 * tol)
\* subnormal results keep fewer digits
Tiny(a) == a[1] = 0 \/ a[2] < -290
Scaled(a, b, e, tol) == \/ (a[1] = 0 /\ b[1] = 0) \/ (Tiny(a) /\ (Tiny(b) \/ b[2] < -280)) \/ Near(<<a[1], a[2] + e>>, b, tol)
\* cm-3 to m-3, and g/cm3 to kg/m3 for the total mass density
ToMeters(a, b) == \A i \in 1..9 : Scaled(a[i], b[i], IF i = 6 THEN 3 ELSE 6, 5)
=============================================================================
