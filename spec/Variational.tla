---------------------------- MODULE Variational ----------------------------
(* Right-hand side of the equations of motion and of the variational equations: which model is evaluated where and when, in which frame, and how the *)
(* parts are put together. The models themselves are given (their own specifications say what they are).                                          *)
EXTENDS Integers, Sequences
F == INSTANCE Frames WITH par <- 0, base <- 0, y0 <- 0, frame <- 0
VARIABLES veh, fld      \* the satellite (plates, mass, drag coefficient) and the models (constant here)
Vec == 1..3
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Add(a, b) == [i \in Vec |-> a[i] + b[i]]
MAdd(a, b) == [i \in Vec |-> [j \in Vec |-> a[i][j] + b[i][j]]]
MScale(k, a) == [i \in Vec |-> [j \in Vec |-> k * a[i][j]]]
VScale(k, a) == [i \in Vec |-> k * a[i]]
\* celestial to terrestrial, 125ths
R(p) == F!M(p)
ToTer(p, x) == F!Ap(R(p), x)
ToCel(p, x) == F!Ap(F!Tr(R(p)), x)
\* a gradient given in the terrestrial frame, in the celestial one: 15625ths
GradCel(p, g) == F!Mul(F!Tr(R(p)), F!Mul(g, R(p)))
\* body axes in the celestial frame: rotation of the conjugate of the quaternion (w, x, y, z), times its square
Quat(q) == LET w == q[1] x == -q[2] y == -q[3] z == -q[4] IN
  << <<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>, <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>, <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>> >>
\* cross section seen along the velocity u through the air, times |u| and the square of the quaternion: plates facing it, <<surface, normal>>
RECURSIVE Area(_, _, _)
Area(pl, q, u) == IF pl = <<>> THEN 0 ELSE LET d == Dot(F!Ap(Quat(q), <<Head(pl)[2], Head(pl)[3], Head(pl)[4]>>), u) IN (IF d > 0 THEN Head(pl)[1] * d ELSE 0) + Area(Tail(pl), q, u)
\* acceleration, 125ths, and its partials by place (15625ths) and velocity
Acc(p, g, sun, moon, drag) == Add(ToCel(p, g), VScale(125, Add(Add(sun, moon), drag)))
ByPlace(p, gg, third, dragr) == MAdd(GradCel(p, gg), MScale(15625, MAdd(third, dragr)))
\* columns of the state transition matrix and of the sensitivity; column 7 is by the drag coefficient
Col(phi, k) == <<phi[6 * k - 5], phi[6 * k - 4], phi[6 * k - 3], phi[6 * k - 2], phi[6 * k - 1], phi[6 * k]>>
ColDot(a, dv, dc, x, k) ==
  LET up == <<x[1], x[2], x[3]>> vp == <<x[4], x[5], x[6]>> acc == Add(Add(F!Ap(a, up), VScale(15625, F!Ap(dv, vp))), IF k = 7 THEN VScale(15625, dc) ELSE <<0, 0, 0>>)
  IN <<15625 * x[4], 15625 * x[5], 15625 * x[6], acc[1], acc[2], acc[3]>>
RECURSIVE Cols(_, _, _, _, _)
Cols(a, dv, dc, phi, k) == IF k > 7 THEN <<>> ELSE ColDot(a, dv, dc, Col(phi, k), k) \o Cols(a, dv, dc, phi, k + 1)
Configure(v, f) == veh' = v /\ fld' = f
Evaluate == UNCHANGED <<veh, fld>>
UTC(tai, leap) == tai - 1000 * leap
=============================================================================
