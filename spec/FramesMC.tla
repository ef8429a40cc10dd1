------------------------------ MODULE FramesMC ------------------------------
EXTENDS Frames, TLC, Json
CONSTANTS H, Emit, Angs
VARIABLES hist
vars == <<par, base, y0, frame, hist>>
I == /\ par \in [q : 1..3, qk : Angs, e : Angs, p : 1..3, pk : Angs, w : {1, 2, 3}]
     /\ y0 \in {<< <<1, 2, -3>>, <<2, 0, 1>> >>, << <<0, 0, 4>>, <<1, -1, 3>> >>, << <<3, 1, 2>>, <<0, 0, 0>> >>}
     /\ base \in {"cel", "ter"} /\ frame = base /\ hist = <<>>
Next == Len(hist) < H /\ Change /\ hist' = Append(hist, frame')
Spec == I /\ [][Next]_vars
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* a rotation; its derivative is a rotation at the Earth's rate about the Earth's axis
Orthonormal == \A i, j \in 1..3 : Mul(M(par), Tr(M(par)))[i][j] = (IF i = j THEN Den * Den ELSE 0)
\* going there and back changes nothing
Sc2(y) == <<[i \in 1..3 |-> Den * Den * y[1][i]], [i \in 1..3 |-> Den * Den * y[2][i]]>>
Back == ToCel(par, ToTer(par, y0)) = Sc2(y0) /\ ToTer(par, ToCel(par, y0)) = Sc2(y0)
\* a point fixed on the Earth moves, in the celestial frame, perpendicular to the axis and to its radius, at the rate times its distance from the axis
Fixed == LET c == ToCel(par, <<y0[1], <<0, 0, 0>> >>) t == Ap(Rot(par.p, par.pk), <<0, 0, 1>>) ax == Ap(Tr(M(par)), t)
             tz == Ap(Tr(Rot(par.p, par.pk)), y0[1]) IN
  Dot(c[1], c[2]) = 0 /\ Dot(ax, c[2]) = 0 /\ Dot(c[2], c[2]) = 625 * par.w * par.w * (tz[1] * tz[1] + tz[2] * tz[2])
EmitBeh == (Emit /\ Len(hist) = H) => PrintT("BEH " \o ToJson(hist))
=============================================================================
