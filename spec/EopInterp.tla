----------------------------- MODULE EopInterp -----------------------------
(* Earth-orientation values at an epoch: each parameter is interpolated from     *)
(* its own column, then each tidal model is added to the parameters it concerns, *)
(* once, for that epoch; a table may have been regularised (zonal tides taken    *)
(* out of it) before.  Columns hold cubics in the days since the first entry;    *)
(* u = half days since the first entry; everything is scaled by 8 so that it is   *)
(* an integer.  Z, O, L: zonal tide, ocean tide and libration model of a          *)
(* parameter at an epoch (h half days since J2000).                              *)
EXTENDS Integers, Sequences
CONSTANTS Params, Z(_, _), O(_, _), L(_, _)
VARIABLE tab                                  \* [d0 first day, n entries, c cubic per parameter, k times regularised]
Empty == [d0 |-> 0, n |-> 0, c |-> [p \in Params |-> <<0, 0, 0, 0>>], k |-> 0]
H(t, u) == 2 * t.d0 + u - 103089
Cubic8(c, u) == 8 * c[1] + 4 * c[2] * u + 2 * c[3] * u * u + c[4] * u * u * u
\* the column of p, continued between its entries
Col8(t, p, u) == Cubic8(t.c[p], u) - 8 * t.k * Z(p, H(t, u))
\* order + 1 entries around the epoch are needed
Fits(t, u, ord) == LET i == u \div 2 w == (ord + 1) \div 2 IN u >= 0 /\ u < 2 * (t.n - 1) /\ i - (w - 1) >= 0 /\ i + w <= t.n - 1
Plain(t, p, u) == Col8(t, p, u)
Full(t, p, u) == Col8(t, p, u) + 8 * (Z(p, H(t, u)) + O(p, H(t, u)) + L(p, H(t, u)))
Fill(d0, n, c) == tab' = [d0 |-> d0, n |-> n, c |-> c, k |-> 0]
Regularize == tab' = [tab EXCEPT !.k = @ + 1]
=============================================================================
