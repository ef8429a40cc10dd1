----------------------------- MODULE GravityMC -----------------------------
EXTENDS Gravity, Json
CONSTANTS C, Emit, H
VARIABLES hist, last
Pts == {<<x - 2, y - 2, z - 2>> : x \in C, y \in C, z \in C} \ {Z}   \* configuration files hold no negative numbers
mvars == <<tab, ws, hist, last>>
MInit == Init /\ hist = <<>> /\ last = Z
Keys == {<<n, m, q>> \in Deg \X Deg \X {"c", "s"} : m <= n /\ (q = "s" => m > 0)}
\* laws the closed form must obey at every point: harmonic, symmetric, homogeneous, turning about the axis
Turn(p) == <<-p[2], p[1], p[3]>>
TurnBack(n, m, q, p) == CASE m % 4 = 0 -> Poly(p, n, m, q) [] m % 4 = 1 -> IF q = "c" THEN -Poly(p, n, m, "s") ELSE Poly(p, n, m, "c") [] m % 4 = 2 -> -Poly(p, n, m, q) [] OTHER -> IF q = "c" THEN Poly(p, n, m, "s") ELSE -Poly(p, n, m, "c")
Laws(p) == \A x \in Keys : LET n == x[1] ts == HT[n][x[2]][x[3]] g == Grad(n, ts, p) h == Hess(n, ts, p) IN
  /\ h[1][1] + h[2][2] + h[3][3] = 0 /\ h[1][2] = h[2][1]
  /\ p[1] * g[1] + p[2] * g[2] + p[3] * g[3] = -(n + 1) * R2(p) * At(ts, p, Z)
  /\ \A i \in 1..3 : h[i][1] * p[1] + h[i][2] * p[2] + h[i][3] * p[3] = -(n + 2) * R2(p) * g[i]
  /\ Poly(Turn(p), n, x[2], x[3]) = TurnBack(n, x[2], x[3], p)
  /\ At(ts, <<p[1], p[2], -p[3]>>, Z) = (IF Even(n + x[2]) THEN 1 ELSE -1) * At(ts, p, Z)
LawsHold == Len(hist) = 1 /\ hist[1][1] = "L" => Laws(last)
Note(x) == hist' = Append(hist, x)
MNext ==
  /\ Len(hist) < H
  /\ \/ ~Emit /\ \E p \in Pts : last' = p /\ Note(<<"L">>) /\ UNCHANGED <<tab, ws>>
     \/ \E x \in {<<0, 0, "c">>, <<2, 0, "c">>, <<2, 1, "s">>, <<3, 3, "c">>} : SetCoef(x[1], x[2], x[3], 1) /\ Note(<<"C", x[1], x[2]>>) /\ UNCHANGED last
     \/ \E k \in 1..2, p \in {<<1, 2, 2>>, <<0, -1, 2>>}, d \in {1, 4}, o \in {1, 3} : Fill(k, p, 1, d, o) /\ Note(<<"F", k, d, o>>) /\ UNCHANGED last
     \/ \E k \in 1..2, d \in {0, 2, 3}, o \in {0, 2} : o <= d /\ Use(k, d, o, FALSE) /\ Note(<<"U", k, d, o>>) /\ last' = Acc(ws[k].p, ws[k].nu, d, o)
MSpec == MInit /\ [][MNext]_mvars
\* using one workspace says nothing about the other, and the result is that of the table and the workspace's own position
UseIsPure == [][last' # last => UNCHANGED <<tab, ws>>]_mvars
Beh == (Emit /\ Len(hist) = H) => PrintT("BEH " \o ToJson(hist))
=============================================================================
