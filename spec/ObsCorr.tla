------------------------------ MODULE ObsCorr -------------------------------
(* Corrections of a DORIS observation.                                         *)
(* Ionosphere: the carriers are in the ratio 543:107 (2036.25 and 401.25 MHz); *)
(* a path of g common cycles and an ionosphere k are seen as 543 g - 107 k and *)
(* 107 g - 543 k cycles (the first order effect goes with the inverse of the   *)
(* frequency).                                                                 *)
(* Relativity: rate of a clock at r with velocity v, (U + v^2/2)/C, where U is *)
(* the potential GM/r, with or without flattening.                             *)
EXTENDS Integers, Sequences
F1 == 543
F2 == 107
L1(g, k) == F1 * g - F2 * k
L2(g, k) == F2 * g - F1 * k
\* corrected observation and correction, times 543^2 - 107^2
K == F1 * F1 - F2 * F2
Clean(a, b) == F1 * (F1 * a - F2 * b)
Corr(a, b) == F2 * (F2 * a - F1 * b)
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Abs(x) == IF x < 0 THEN -x ELSE x
\* twice C times the correction: u = GM/r
Central(u, v) == 2 * u + Sq(v)
\* 2 n^2 C times the correction, j = J2 (Re/r)^2; p = direction (integers), n its length
Flat(u, v, j, p, n) == 2 * u * n * n - u * j * (3 * p[3] * p[3] - n * n) + Sq(v) * n * n
\* the latitude may be that of the ellipsoid: its sine squared is larger by no more than 0.0034
Band(u, j, p, n) == IF p[3] = 0 \/ (p[1] = 0 /\ p[2] = 0) THEN 0 ELSE 1 + (u * Abs(j) * n * n * 11) \div 1000
=============================================================================
