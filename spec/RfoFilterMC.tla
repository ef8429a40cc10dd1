---------------------------- MODULE RfoFilterMC ----------------------------
(* The filter in gain form, over rationals X/d, M/d with a common denominator, *)
(* against the normal equations of everything read.                            *)
EXTENDS RfoFilter, TLC, Json, FiniteSets
CONSTANTS L, Ws, Ks, Zs, Emit
VARIABLES W, R, M, X, d, exact, files, cur, done
vars == <<W, R, M, X, d, exact, files, cur, done>>
\* unknowns: offset and eighth of the drift, relative to the a-priori values
Init == \E x \in Ws, v \in Ws, z \in Ws :
           /\ W = [x |-> x, v |-> v, z |-> z] /\ R = <<>>
           /\ M = <<64 * v, 0, x>> /\ d = 64 * x * v /\ X = <<0, 0>> /\ exact = TRUE /\ files = <<>> /\ cur = <<>> /\ done = FALSE
Total == Len(cur) + (IF files = <<>> THEN 0 ELSE Len(files[1]))
\* one reading: innovation, gain, update of estimate and covariance
Update(k, z) ==
  LET m0 == M[1] + k * M[2] m1 == M[2] + k * M[3]
      s == m0 + k * m1 d2 == d + W.z * s
      y == z * d - X[1] - k * X[2]
      N(a, b) == a * d2 - W.z * b IN
  /\ d' = d2
  /\ M' = <<N(M[1], m0 * m0) \div d, N(M[2], m0 * m1) \div d, N(M[3], m1 * m1) \div d>>
  /\ X' = <<(X[1] * d2 + W.z * m0 * y) \div d, (X[2] * d2 + W.z * m1 * y) \div d>>
  /\ exact' = (exact /\ N(M[1], m0 * m0) % d = 0 /\ N(M[2], m0 * m1) % d = 0 /\ N(M[3], m1 * m1) % d = 0
                     /\ (X[1] * d2 + W.z * m0 * y) % d = 0 /\ (X[2] * d2 + W.z * m1 * y) % d = 0)
\* kinds of blocks: u with a reading, m without one, e without beacons
Block == /\ ~done /\ Total < L /\ UNCHANGED <<W, files, done>>
         /\ \/ \E k \in Ks, z \in Zs : (R = <<>> => k = 0 /\ z = 0) /\ Update(k, z) /\ R' = Append(R, [k |-> k, z |-> z]) /\ cur' = Append(cur, "u")
            \/ \E c \in {"m", "e"} : cur' = Append(cur, c) /\ UNCHANGED <<R, M, X, d, exact>>
EndFile == /\ ~done /\ UNCHANGED <<W, R, M, X, d, exact>>
           /\ (IF files = <<>> THEN files' = <<cur>> /\ cur' = <<>> /\ done' \in BOOLEAN ELSE files' = Append(files, cur) /\ cur' = <<>> /\ done' = TRUE)
Spec == Init /\ [][Block \/ EndFile]_vars
RECURSIVE Rhs(_, _)
Rhs(p, n) == IF n = 0 THEN 0 ELSE (IF p = 0 THEN R[n].z ELSE R[n].k * R[n].z) + Rhs(p, n - 1)
n == Len(R)
Exact == exact
\* estimate and covariance are those of all the readings at once
Batch == /\ d = Det(W, R, n) /\ M = <<NC(W, R, n), -NB(W, R, n), NA(W, R, n)>>
         /\ NA(W, R, n) * X[1] + NB(W, R, n) * X[2] = d * W.z * Rhs(0, n)
         /\ NB(W, R, n) * X[1] + NC(W, R, n) * X[2] = d * W.z * Rhs(1, n)
\* more is never less certain: inverse variances do not shrink
Certain == d > 0 /\ M[1] > 0 /\ M[3] > 0 /\ M[1] * M[3] > M[2] * M[2]
Gains == [][d' * M[1] >= d * M'[1] /\ d' * M[3] >= d * M'[3]]_vars
\* nothing but readings moves it
Still == [][R' = R => X' = X /\ M' = M /\ d' = d]_vars
\* the conditions asked of the implementation (rounded estimates) hold for the estimates of the machine: x = X/d in units of 1/u
Rnd(a, b) == (2 * a + b) \div (2 * b)
Holds == LET u == 100 x0 == Rnd(u * X[1], d) x1 == Rnd(8 * u * X[2], d) IN Optimal(W, R, n, u, x0, x1, 0, 0) /\ Confidence(W, R, n, Milli(d, NC(W, R, n)), Milli(d, 64 * NA(W, R, n)))
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(files))
=============================================================================
