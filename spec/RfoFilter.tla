----------------------------- MODULE RfoFilter ------------------------------
(* Sequential estimate of a receiver's frequency offset and its drift.  A     *)
(* reading: k (time, eighths of a day after the first reading), z (value).    *)
(* Weights are integers (inverse variances in a common unit): wx of the       *)
(* a-priori offset, wv of the a-priori drift, wz of a reading.                *)
EXTENDS Integers, Sequences
\* ---- normal equations of the unknowns (offset, eighth of the drift): a priori and everything read so far
RECURSIVE SumK(_, _, _)
SumK(R, p, n) == IF n = 0 THEN 0 ELSE (IF p = 0 THEN 1 ELSE IF p = 1 THEN R[n].k ELSE R[n].k * R[n].k) + SumK(R, p, n - 1)
NA(W, R, n) == W.x + W.z * n
NB(W, R, n) == W.z * SumK(R, 1, n)
NC(W, R, n) == 64 * W.v + W.z * SumK(R, 2, n)
Det(W, R, n) == NA(W, R, n) * NC(W, R, n) - NB(W, R, n) * NB(W, R, n)
\* ---- what the estimate x0 (offset), x1 (drift) after n readings must satisfy.  u: units of the estimates in one of the readings,
\* p0, p1: a priori values in units of the estimates.  The gradient of the weighted squares, up to the rounding of the estimates.
Abs(x) == IF x < 0 THEN -x ELSE x
Res(R, i, u, x0, x1) == 8 * x0 + R[i].k * x1 - 8 * u * R[i].z
RECURSIVE G0(_, _, _, _, _)
G0(R, n, u, x0, x1) == IF n = 0 THEN 0 ELSE Res(R, n, u, x0, x1) + G0(R, n - 1, u, x0, x1)
RECURSIVE G1(_, _, _, _, _)
G1(R, n, u, x0, x1) == IF n = 0 THEN 0 ELSE R[n].k * Res(R, n, u, x0, x1) + G1(R, n - 1, u, x0, x1)
RECURSIVE AbsK(_, _, _)
AbsK(R, p, n) == IF n = 0 THEN 0 ELSE (IF p = 1 THEN Abs(R[n].k) ELSE R[n].k * R[n].k) + AbsK(R, p, n - 1)
Optimal(W, R, n, u, x0, x1, p0, p1) ==
  /\ Abs(8 * W.x * (x0 - p0) + W.z * G0(R, n, u, x0, x1)) <= 4 * W.x + W.z * (4 * n + AbsK(R, 1, n)) + 1
  /\ Abs(64 * W.v * (x1 - p1) + W.z * G1(R, n, u, x0, x1)) <= 32 * W.v + W.z * (4 * AbsK(R, 1, n) + AbsK(R, 2, n)) + 1
\* ---- inverse variances of the estimates (milli units of the weights)
Milli(a, b) == 1000 * (a \div b) + (1000 * (a % b)) \div b
Confidence(W, R, n, c0, c1) == LET d == Det(W, R, n) IN Abs(c0 - Milli(d, NC(W, R, n))) <= 1 + c0 \div 1000000 /\ Abs(c1 - Milli(d, 64 * NA(W, R, n))) <= 1 + c1 \div 1000000
=============================================================================
