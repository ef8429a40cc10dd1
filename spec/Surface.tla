------------------------------ MODULE Surface ------------------------------
(* Forces on the satellite's surface: air drag and solar radiation. The satellite's place and velocity are kept; integers in units in which the   *)
(* Earth turns once per unit of time, so that the velocity through the air is v - w x r; lengths of the vectors that matter are integers.         *)
EXTENDS Integers, Sequences
VARIABLES r, v
Ang == << <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> >>
Co(k) == Ang[k + 1][1]
Si(k) == Ang[k + 1][2]
Cross(w, x) == <<w[2] * x[3] - w[3] * x[2], w[3] * x[1] - w[1] * x[3], w[1] * x[2] - w[2] * x[1]>>
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Wind(x, y) == Sub(y, Cross(<<0, 0, 1>>, x))
Is(len, a) == len > 0 /\ len * len = a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Start(x, y) == r' = x /\ v' = y
Init == r = <<0, 0, 0>> /\ v = <<0, 0, 1>>
U == Wind(r, v)
\* all in units of half the ballistic factor: acceleration, and by the coefficient
Drag(len) == [i \in 1..3 |-> -len * U[i]]
\* by the velocity and by the place, times the length of U; g: gradient of density over density
DragV(len) == [i \in 1..3 |-> [j \in 1..3 |-> -((IF i = j THEN len * len ELSE 0) + U[i] * U[j])]]
\* velocity through the air by place: -(w x)
By(j) == Cross(<<0, 0, 1>>, [k \in 1..3 |-> IF k = j THEN 1 ELSE 0])
DragR(len, g) == [i \in 1..3 |-> [j \in 1..3 |-> -(len * len * U[i] * g[j]) - (DragV(len)[i][1] * By(j)[1] + DragV(len)[i][2] * By(j)[2] + DragV(len)[i][3] * By(j)[3])]]
\* a vector of the frame of date in the celestial one: date = turn(axis, k) celestial; fifths
Back(ax, k, x) == LET i == (ax % 3) + 1 j == ((ax + 1) % 3) + 1 IN [q \in 1..3 |-> IF q = i THEN Co(k) * x[i] - Si(k) * x[j] ELSE IF q = j THEN Si(k) * x[i] + Co(k) * x[j] ELSE 5 * x[q]]
\* pressure of light from the Sun at s: along d = r - s; times d^3 and d^5
Light(d) == d
LightR(d, len) == [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN len * len ELSE 0) - 3 * d[i] * d[j]]]
Next == \E x, y \in {<<a, b, c>> : a \in 0..2, b \in 0..2, c \in 0..2} : Start(x, y)
=============================================================================
