--------------------------- MODULE VariationalMC ---------------------------
EXTENDS Variational
CONSTANTS Angs
Spec == (veh = <<>> /\ fld = [q |-> 1, qk |-> 0, e |-> 0, p |-> 1, pk |-> 0, w |-> 1]) /\ [][\E a \in 1..3, b \in {1, 2}, x, y, z \in Angs : Configure(veh, [q |-> a, qk |-> x, e |-> y, p |-> b, pk |-> z, w |-> 1])]_<<veh, fld>>
Fields == { << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, -3>> >>, << <<0, 1, -1>>, <<1, 0, 2>>, <<-1, 2, 0>> >>, << <<2, 1, 0>>, <<1, -3, 1>>, <<0, 1, 1>> >> }
X == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -2, 1>>}
\* the gradient in the celestial frame is the derivative of the acceleration there: for a field linear in the terrestrial place
Derivative == \A g \in Fields, x \in X : F!Ap(GradCel(fld, g), x) = ToCel(fld, F!Ap(g, ToTer(fld, x)))
Symmetric == \A g \in Fields : LET c == GradCel(fld, g) IN (\A i, j \in Vec : c[i][j] = c[j][i]) /\ c[1][1] + c[2][2] + c[3][3] = 15625 * (g[1][1] + g[2][2] + g[3][3])
\* turning the other way round is not the same
Body == \A x \in X : LET q == <<2, 1, 0, 0>> r == Quat(q) IN Dot(F!Ap(r, x), F!Ap(r, x)) = 25 * Dot(x, x)
Sides == \A u \in X : Area(<< <<3, 1, 0, 0>>, <<3, -1, 0, 0>> >>, <<1, 0, 0, 0>>, u) = 3 * (IF u[1] < 0 THEN -u[1] ELSE u[1])
=============================================================================
