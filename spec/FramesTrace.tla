---------------------------- MODULE FramesTrace ----------------------------
EXTENDS Frames, TraceIO
vars == <<par, base, y0, frame, l>>
TraceInit == par = [q |-> 1, qk |-> 0, e |-> 0, p |-> 1, pk |-> 0, w |-> 1] /\ base = "cel" /\ frame = "cel" /\ y0 = << <<0, 0, 0>>, <<0, 0, 0>> >> /\ l = 1
Abs(x) == IF x < 0 THEN -x ELSE x
\* the code's values in thousandths of 125ths
Seen(x, v) == \A i \in 1..3 : Abs(x[i] - 1000 * v[i]) <= 2
Same == UNCHANGED <<par, base, y0, frame>>
TraceNext ==
  \/ IsEvent("Start") /\ Start([q |-> Ev.q, qk |-> Ev.qk, e |-> Ev.e, p |-> Ev.p, pk |-> Ev.pk, w |-> Ev.w], Ev.base, <<Ev.r, Ev.v>>)
  \/ IsEvent("State") /\ Change /\ Seen(Ev.r, Here'[1]) /\ Seen(Ev.v, Here'[2])
  \* the position alone, or any vector, expressed in the other frame
  \/ IsEvent("Vector") /\ Same /\ Seen(Ev.r, There[1])
  \* Earth orientation at an epoch: parameters interpolated in TT, models in TT, rotation angle in UT1, corrections applied once
  \/ /\ IsEvent("Orient") /\ Same
     /\ IF Ev.fail # 0 THEN Ev.rc # 0
        ELSE /\ Ev.rc = 0 /\ Ev.lod = Ev.inlod /\ Ev.eopat = TT(Ev.tai) /\ Ev.xyat = TT(Ev.tai) /\ Ev.sat = TT(Ev.tai) /\ Ev.spat = TT(Ev.tai)
             /\ Ev.era = UT1(Ev.tai, Ev.leap, Ev.dut)
             /\ Ev.sxy = <<Ev.x, Ev.y>>                                        \* the locator belongs to the model's pole
             /\ Ev.q = <<Ev.x + Ev.dx, Ev.y + Ev.dy, Ev.s>> /\ Ev.w = <<Ev.xp, Ev.yp, Ev.sp>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
