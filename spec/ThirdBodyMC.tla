---------------------------- MODULE ThirdBodyMC -----------------------------
(* Queries of third-body effects one after the other; every answer depends on  *)
(* its own query.                                                              *)
EXTENDS ThirdBody, TLC, Json, FiniteSets
CONSTANTS N, L, Emit
VARIABLES asked, ans
vars == <<asked, ans>>
Quads == {<<1, 2, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<2, 3, 6>>, <<6, 2, 3>>, <<3, 6, 2>>, <<1, 4, 8>>, <<4, 4, 7>>, <<0, 3, 4>>, <<4, 0, 3>>, <<5, 0, 0>>, <<0, 0, 7>>}
Len3(v) == CHOOSE n \in 1..20 : n * n = Sq(v)
Neg(v) == <<-v[1], v[2], -v[3]>>
V == Quads \cup {Neg(q) : q \in Quads}
Bodies == {[s |-> s, S |-> Len3(s), d |-> d, D |-> Len3(d), g |-> 1] : s \in V, d \in V}
Init == asked = <<>> /\ ans = <<>>
Ask == Len(asked) < L /\ \E e \in 1..N, q \in 1..N : asked' = Append(asked, <<e, q>>) /\ ans' = Append(ans, <<e, q>>)
Spec == Init /\ [][Ask]_vars
Own == \A i \in 1..Len(asked) : ans[i] = asked[i]
R(b) == [i \in 1..3 |-> b.s[i] - b.d[i]]
ASSUME \A b \in Bodies : Geometry(b, R(b))
\* no tide at the Earth's centre; the gradient is symmetric, without trace, twice the pull along the line and once against across
ASSUME \A b \in Bodies : b.s = b.d => Accel(b) = <<0, 0, 0>>
ASSUME \A b \in Bodies : LET G == Grad(b) IN
         /\ G[1] + G[5] + G[9] = 0 /\ G[2] = G[4] /\ G[3] = G[7] /\ G[6] = G[8]
         /\ \A i \in 1..3 : G[3 * i - 2] * b.d[1] + G[3 * i - 1] * b.d[2] + G[3 * i] * b.d[3] = 2 * Cube(b.S) * b.D * b.D * b.d[i]
         /\ \A u \in V : Dot(u, b.d) = 0 => \A i \in 1..3 : G[3 * i - 2] * u[1] + G[3 * i - 1] * u[2] + G[3 * i] * u[3] = -Cube(b.S) * b.D * b.D * u[i]
\* days and milliseconds
ASSUME \A d \in {51543, 51544, 51545, 57754, 59000}, s \in {0, 1, 43167815, 43167816, 43167817, 86399999, 86367816, 86367815} :
         LET t == TT(d, s) IN t[2] \in 0..86399999 /\ (t[1] - (d - 51544)) \in {-1, 0, 1} /\ ((t[1] - (d - 51544)) * 86400 + t[2] \div 1000) - (s \div 1000) \in {32 - 43200, 33 - 43200}
ASSUME Wrap(1295999) = -1 /\ Wrap(-1) = -1 /\ Wrap(648000) = 648000 /\ Precession(36525) = 5028 /\ Near(5, 1295990, 15) /\ ~Near(5, 1295989, 15)
EmitBeh == (Emit /\ Len(asked) = L) => PrintT("BEH " \o ToJson(asked))
=============================================================================
