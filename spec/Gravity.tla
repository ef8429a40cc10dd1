------------------------------ MODULE Gravity ------------------------------
(* Gravity of a body given by spherical harmonics: U = sum GM R^n / r^(2n+1) (C H_c + S H_s), H the solid harmonics (closed form, times 8).      *)
(* Positions are lattice points; with the reference radius r^2/nu all values are integers over a common factor. Two workspaces of polynomials,   *)
(* each filled for a position, used in any order with any table of coefficients.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANT N                                   \* degrees covered exactly
VARIABLES tab, ws
Deg == 0..N
RECURSIVE Fact(_), Pow(_, _)
Fact(k) == IF k <= 0 THEN 1 ELSE k * Fact(k - 1)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Sum(op(_), S) == MapThenSumSet(op, S)
Even(k) == k % 2 = 0
\* 8 H_nm as terms <<coefficient, power of x, y, z>>; part "c": cosine, "s": sine
Terms(n, m, part) ==
  LET jj == {j \in 0..m : Even(j) = (part = "c")}
      sgn(j) == IF Even(j \div 2) THEN 1 ELSE -1
      bin(j) == Fact(m) \div (Fact(j) * Fact(m - j))
      lead(k) == (IF Even(k) THEN 1 ELSE -1) * ((8 * Fact(2 * n - 2 * k)) \div (Pow(2, n) * Fact(k) * Fact(n - k) * Fact(n - m - 2 * k)))
      one(j, k, a, b) == <<sgn(j) * bin(j) * lead(k) * (Fact(k) \div (Fact(a) * Fact(b) * Fact(k - a - b))), m - j + 2 * a, j + 2 * b, n - m - 2 * k + 2 * (k - a - b)>>
      idx == {q \in jj \X (0..((n - m) \div 2)) \X (0..((n - m) \div 2)) \X (0..((n - m) \div 2)) : q[3] + q[4] <= q[2]}
      tt == {<<q, one(q[1], q[2], q[3], q[4])>> : q \in idx}
      exps == {Tail(x[2]) : x \in tt}
      co(e) == Sum(LAMBDA x : IF Tail(x[2]) = e THEN x[2][1] ELSE 0, tt)
      cs == {<<co(e), e>> : e \in exps}
  IN {<<x[1], x[2][1], x[2][2], x[2][3]>> : x \in {y \in cs : y[1] # 0}}
HT == [n \in Deg |-> [m \in 0..n |-> [c |-> Terms(n, m, "c"), s |-> Terms(n, m, "s")]]]
\* derivative of order d (per axis) of the polynomial at p
Fall(a, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN a ELSE a * (a - 1)
D1(t, p, d, i) == IF t[i + 1] < d[i] THEN 0 ELSE Fall(t[i + 1], d[i]) * Pow(p[i], t[i + 1] - d[i])
At(ts, p, d) == Sum(LAMBDA t : t[1] * D1(t, p, d, 1) * D1(t, p, d, 2) * D1(t, p, d, 3), ts)
Z == <<0, 0, 0>>
U(i) == [Z EXCEPT ![i] = 1]
Plus(a, b) == [k \in 1..3 |-> a[k] + b[k]]
R2(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
\* first and second derivatives of r^-(2n+1) H, times r^(2n+3) and r^(2n+5)
Grad(n, ts, p) == LET h == At(ts, p, Z) IN [i \in 1..3 |-> R2(p) * At(ts, p, U(i)) - (2 * n + 1) * p[i] * h]
Hess(n, ts, p) ==
  LET h == At(ts, p, Z) g == [i \in 1..3 |-> At(ts, p, U(i))] r2 == R2(p) k == 2 * n + 1
  IN [i \in 1..3 |-> [j \in 1..3 |-> r2 * r2 * At(ts, p, Plus(U(i), U(j))) - k * r2 * (p[i] * g[j] + p[j] * g[i] + (IF i = j THEN h ELSE 0)) + k * (k + 2) * p[i] * p[j] * h]]
\* terms of the table taken into account, by window; the table: [<<n, m, part>> -> coefficient], zeros left out
InWindow(x, deg, ord) == x[1] <= deg /\ x[2] <= ord
Fac(n, nu) == Pow(nu, N - n)
Used(deg, ord) == {x \in DOMAIN tab : InWindow(x, deg, ord)}
Acc(p, nu, deg, ord) == [i \in 1..3 |-> Sum(LAMBDA x : Fac(x[1], nu) * tab[x] * Grad(x[1], HT[x[1]][x[2]][x[3]], p)[i], Used(deg, ord))]
Par(p, nu, deg, ord) ==
  LET hs == [x \in Used(deg, ord) |-> Hess(x[1], HT[x[1]][x[2]][x[3]], p)]
  IN [i \in 1..3 |-> [j \in 1..3 |-> Sum(LAMBDA x : Fac(x[1], nu) * tab[x] * hs[x][i][j], Used(deg, ord))]]
\* the polynomials themselves
Poly(p, n, m, part) == At(HT[n][m][part], p, Z)
Empty == [p |-> Z, nu |-> 1, deg |-> -1, ord |-> -1]
Init == tab = <<>> /\ ws = [k \in 1..2 |-> Empty]
Begin == tab' = <<>> /\ ws' = [k \in 1..2 |-> Empty]
SetCoef(n, m, part, v) == tab' = [x \in (DOMAIN tab) \cup {<<n, m, part>>} |-> IF x = <<n, m, part>> THEN v ELSE tab[x]] /\ UNCHANGED ws
Fill(k, p, nu, deg, ord) == ord <= deg /\ ws' = [ws EXCEPT ![k] = [p |-> p, nu |-> nu, deg |-> deg, ord |-> ord]] /\ UNCHANGED tab
\* what a use needs of its workspace: one degree and order more, two for the partials
Enough(k, deg, ord, partials) == LET x == IF partials THEN 2 ELSE 1 IN ws[k].deg >= deg + x /\ ws[k].ord >= ord + x
Use(k, deg, ord, partials) == Enough(k, deg, ord, partials) /\ UNCHANGED <<tab, ws>>
\* attraction of a point mass (numerators over d^3 s^3 and over d^5), d: from the mass to the satellite, s: to the mass; both of integer length
Cube(k) == k * k * k
Mass(d, dl, s, sl) == [i \in 1..3 |-> -(d[i] * Cube(sl) + s[i] * Cube(dl))]
MassPar(d, dl) == [i \in 1..3 |-> [j \in 1..3 |-> -((IF i = j THEN dl * dl ELSE 0) - 3 * d[i] * d[j])]]
=============================================================================
