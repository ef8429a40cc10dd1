------------------------------ MODULE Switches ------------------------------
\* Switches of the NRLMSISE-00 model: a main and a cross value each; switches are numbered from 0.
EXTENDS Integers, Sequences
CONSTANT Dim
VARIABLES sw, swc
\* the remainder keeps the sign of the value: -1 is the special value of switch 8 (use the array of geomagnetic indices)
Main(v) == IF v >= 0 THEN v % 2 ELSE -((-v) % 2)
Cross(v) == IF v = 1 \/ v = 2 THEN 1 ELSE 0
All(v) == [i \in 1..Dim |-> v]
Init == sw = All(1) /\ swc = All(1)
Set(i, v) == sw' = [sw EXCEPT ![i + 1] = Main(v)] /\ swc' = [swc EXCEPT ![i + 1] = Cross(v)]
\* i < 0: all of them
Null(i) == IF i < 0 THEN sw' = All(0) /\ swc' = All(0) ELSE Set(i, 0)
On(i) == IF i < 0 THEN sw' = All(1) /\ swc' = All(1) ELSE Set(i, 1)
UseAp == Set(8, -1)
=============================================================================
