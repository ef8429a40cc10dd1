-------------------------------- MODULE Intrp --------------------------------
(* Table interpolators (property C10): what value and status each gives for a *)
(* query, defined from the bracket of the query and not from any search.      *)
(* Values are compared as exact fractions: v = N / D.                         *)
EXTENDS Integers, Sequences, FiniteSets
Lo(t) == t[1].x
Hi(t) == t[Len(t)].x
Status(t, q) == IF q < Lo(t) THEN 1 ELSE IF q > Hi(t) THEN 2 ELSE 0
\* the upper end of the interval [x[i-1], x[i]) that holds q
Bracket(t, q) == CHOOSE i \in 2..Len(t) : t[i-1].x <= q /\ q < t[i].x
Inside(t, q) == Lo(t) < q /\ q < Hi(t)
End(t, q) == [n |-> IF q <= Lo(t) THEN t[1].y ELSE t[Len(t)].y, d |-> 1]
Nearest(t, q) ==
  IF ~Inside(t, q) THEN End(t, q)
  ELSE LET i == Bracket(t, q) IN [n |-> IF q - t[i-1].x < t[i].x - q THEN t[i-1].y ELSE t[i].y, d |-> 1]
Linear(t, q) ==
  IF ~Inside(t, q) THEN End(t, q)
  ELSE LET i == Bracket(t, q)
           w == t[i].x - t[i-1].x
       IN [n |-> t[i-1].y * w + (t[i].y - t[i-1].y) * (q - t[i-1].x), d |-> w]
\* the third point: the nearer of the two neighbours of the bracket (the upper one when they are equally near), or the only one there is
Third(t, q, i) == IF i = 2 THEN 3 ELSE IF i = Len(t) THEN Len(t) - 2
                  ELSE IF q - t[i-2].x < t[i+1].x - q THEN i - 2 ELSE i + 1
Parabola(a, b, c, q) ==
  [n |-> a.y * (q - b.x) * (q - c.x) * (b.x - c.x)
         - b.y * (q - a.x) * (q - c.x) * (a.x - c.x)
         + c.y * (q - a.x) * (q - b.x) * (a.x - b.x),
   d |-> (a.x - b.x) * (a.x - c.x) * (b.x - c.x)]
Quadratic(t, q) ==
  IF ~Inside(t, q) THEN End(t, q)
  ELSE LET i == Bracket(t, q) IN Parabola(t[i-1], t[i], t[Third(t, q, i)], q)
Value(k, t, q) == CASE k = "N" -> Nearest(t, q) [] k = "L" -> Linear(t, q) [] k = "Q" -> Quadratic(t, q)
MinSize(k) == IF k = "Q" THEN 3 ELSE 2
Abs(n) == IF n < 0 THEN -n ELSE n
\* v is V thousandths
Matches(k, t, q, V) == LET f == Value(k, t, q) IN Abs(V * f.d - 1000 * f.n) <= Abs(f.d)
Eq(f, g) == f.n * g.d = g.n * f.d
=============================================================================
