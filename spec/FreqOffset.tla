----------------------------- MODULE FreqOffset -----------------------------
(* Averaging a series of receiver frequency offsets.  A reading: t (epoch of   *)
(* the mean), f (value).  Every n readings of a file give one point: their     *)
(* mean, midway between the first and the last; what is left at the end of a   *)
(* file is a point of its own.                                                 *)
EXTENDS Integers, Sequences
\* ---- the machine: what it has collected so far
B0 == [k |-> 0, sum |-> 0, t0 |-> 0, t1 |-> 0]
Take(b, r) == [k |-> b.k + 1, sum |-> b.sum + r.f, t0 |-> IF b.k = 0 THEN r.t ELSE b.t0, t1 |-> r.t]
Point(b) == [k |-> b.k, sum |-> b.sum, mid2 |-> b.t0 + b.t1]
Close(b, pts) == IF b.k = 0 THEN pts ELSE Append(pts, Point(b))
RECURSIVE Run(_, _, _, _)
Run(R, n, b, pts) == IF R = <<>> THEN Close(b, pts)
                     ELSE LET c == Take(b, Head(R)) IN IF c.k = n THEN Run(Tail(R), n, B0, Append(pts, Point(c))) ELSE Run(Tail(R), n, c, pts)
PointsOf(R, n) == Run(R, n, B0, <<>>)
\* ---- said without the machine
RECURSIVE Sum(_, _, _)
Sum(R, i, j) == IF i > j THEN 0 ELSE R[i].f + Sum(R, i + 1, j)
Min(a, b) == IF a < b THEN a ELSE b
Blocks(R, n) == [i \in 1..((Len(R) + n - 1) \div n) |->
                   LET a == (i - 1) * n + 1 z == Min(i * n, Len(R)) IN [k |-> z - a + 1, sum |-> Sum(R, a, z), mid2 |-> R[a].t + R[z].t]]
\* ---- least squares: V[i] the model's value at point i, in the units of the means; the residuals are orthogonal to 1, m, m*m ...
RECURSIVE Pow(_, _)
Pow(m, k) == IF k = 0 THEN 1 ELSE m * Pow(m, k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Dot(_, _, _, _)
Dot(P, V, k, i) == IF i = 0 THEN 0 ELSE (V[i] - P[i].sum \div P[i].k) * Pow(P[i].mid2, k) + Dot(P, V, k, i - 1)
RECURSIVE Slack(_, _, _)
Slack(P, k, i) == IF i = 0 THEN 0 ELSE Abs(Pow(P[i].mid2, k)) + Slack(P, k, i - 1)
\* (lim: what no residual exceeds, since the means lie that close to some polynomial of the order)
Fits(P, lim, V, order) == (\A i \in 1..Len(P) : Abs(V[i]) < 100000000 /\ Abs(V[i] - P[i].sum \div P[i].k) <= lim) /\ \A k \in 0..order : Abs(Dot(P, V, k, Len(P))) <= Slack(P, k, Len(P)) + 1
=============================================================================
