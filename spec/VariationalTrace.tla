------------------------- MODULE VariationalTrace -------------------------
EXTENDS Variational, TraceIO
vars == <<veh, fld, l>>
TraceInit == veh = <<>> /\ fld = <<>> /\ l = 1
Abs(x) == IF x < 0 THEN -x ELSE x
P == [q |-> Ev.q, qk |-> Ev.qk, e |-> Ev.e, p |-> Ev.p, pk |-> Ev.pk, w |-> 1]
Mat(x) == << <<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>, <<x[7], x[8], x[9]>> >>
Near(a, b) == Abs(a - b) <= 1
Zero3 == <<0, 0, 0>>
ZeroM == <<Zero3, Zero3, Zero3>>
Dist2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
\* what the drag model was given
Given == /\ Ev.cd = veh.cd /\ Ev.mass = veh.mass /\ Ev.rv = 1                \* place and velocity of the state
         /\ Ev.area = Area(veh.plates, Ev.att, Ev.u)
         /\ Ev.rho = fld.k + 800 * Dot(fld.g, ToTer(P, Ev.r))                \* density at the Earth-fixed place
         /\ Ev.drho = ToCel(P, fld.g)
         /\ Near(Ev.utc, UTC(Ev.tai, Ev.leap)) /\ Ev.lst = 0
Out == LET d == IF Ev.noatt = 1 THEN Zero3 ELSE fld.d
           dr == IF Ev.noatt = 1 THEN ZeroM ELSE Mat(fld.dr)
           dv == IF Ev.noatt = 1 THEN ZeroM ELSE Mat(fld.dv)
           dc == IF Ev.noatt = 1 THEN Zero3 ELSE fld.dc
       IN /\ Ev.v0 = 1 /\ Ev.acc = Acc(P, fld.acc, fld.sun, fld.moon, d)
          /\ Ev.phip = Cols(ByPlace(P, Mat(fld.grad), Mat(fld.third), dr), dv, dc, Ev.phi, 1)
TraceNext ==
  \/ IsEvent("Config") /\ Configure([plates |-> Ev.plates, cd |-> Ev.cd, mass |-> Ev.mass], [acc |-> Ev.acc, grad |-> Ev.grad, sun |-> Ev.sun, moon |-> Ev.moon, third |-> Ev.third, k |-> Ev.k, g |-> Ev.g, d |-> Ev.d, dr |-> Ev.dr, dv |-> Ev.dv, dc |-> Ev.dc])
  \/ IsEvent("Eval") /\ Evaluate
     /\ Ev.gpos = ToTer(P, Ev.r) /\ Ev.win = <<Ev.deg, Ev.ord>> /\ Ev.poly = <<Ev.deg + 2, Ev.ord + 2>>
     /\ Near(Ev.tsm, Ev.tai) /\ Near(Ev.trot, Ev.tai) /\ Near(Ev.tatt, Ev.tai) /\ Ev.smr = 1 /\ Ev.gm = 1
     /\ (Ev.noatt = 0 => Given) /\ Out
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
