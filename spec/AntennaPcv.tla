----------------------------- MODULE AntennaPcv -----------------------------
(* Phase-centre tables of the ground antennas (DORIS ground segment models):    *)
(* eccentricities in mm, corrections at zenith angles 0, 5 .. 90 degrees in     *)
(* 1/100 mm; queries in 1/1000 degree, answers in 1/10000 mm.                   *)
EXTENDS Integers, Sequences
Alcatel1 == <<0, 205, 724, 921, 671, 814, 1187, 1248, 1228, 1367, 1391, 1301, 1301, 1187, 970, 794, 499, 41, -393>>
Starec1 == <<0, 6, -32, -112, -287, -402, -344, -215, -173, -173, -8, 137, 220, 537, 702, 1070, 1386, 1727, 2237>>
None == [i \in 1..19 |-> 0]
Table(a, f) == IF f = 2 THEN None ELSE IF a = "Alcatel" THEN Alcatel1 ELSE Starec1
Up(a, f) == IF a = "Alcatel" THEN (IF f = 1 THEN 510 ELSE 335) ELSE (IF f = 1 THEN 487 ELSE 0)
Last == 90000
Inside(z) == 0 <= z /\ z <= Last
\* the line through the two tabulated angles around z
Pcv(T, z) == LET i == IF z = Last THEN 17 ELSE z \div 5000
             IN T[i + 1] * 100 + ((T[i + 2] - T[i + 1]) * (z - 5000 * i)) \div 50
\* ionosphere-free: r1 + (r1 - r2) / (gamma - 1), gamma = (2036.25 / 401.25)^2 = (543 / 107)^2, in 1/10000 mm
IonFree(a) == LET d == Up(a, 1) - Up(a, 2) IN Up(a, 1) * 10000 + ((d * 11449) * 100) \div 2834      \* 107^2 = 11449; 543^2 - 107^2 = 283400
=============================================================================
