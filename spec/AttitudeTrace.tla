---------------------------- MODULE AttitudeTrace ----------------------------
(* Times in quarter seconds (TAI), angles in 1e-5 rad about a fixed body axis. *)
EXTENDS Attitude, TraceIO
VARIABLES F, up, top
Abs(x) == IF x < 0 THEN -x ELSE x
Between(a, b, t) ==      \* the attitude the event reports lies at t between the two records (two units of rounding)
  LET D == b.t - a.t IN
  IF D = 0 THEN Abs(Ev.ang - a.a) <= 2 \/ Abs(Ev.ang - b.a) <= 2
  ELSE Abs(Ev.ang * D - (a.a * D + (b.a - a.a) * (t - a.t))) <= 2 * D
AtKnot(R, t) == \E i \in 1..Len(R) : R[i].t = t /\ Abs(Ev.ang - R[i].a) <= 2      \* records of the same time: any of them
TraceInit == F = <<>> /\ up = FALSE /\ top = -1 /\ l = 1
TraceNext ==
  \/ IsEvent("File") /\ F' = Ev.lines /\ up' = FALSE /\ top' = -1
  \/ IsEvent("Open") /\ UNCHANGED <<F, top>> /\ up' = (Ev.rc = 0) /\ (Ev.rc = 0) = (Ev.there = 1 /\ Opens(F))
  \/ IsEvent("Query") /\ UNCHANGED <<F, up>> /\ top' = (IF Ev.t > top THEN Ev.t ELSE top)
       /\ (IF ~up THEN TRUE ELSE
           LET R == Readable(F) A == Allowed(F, top, Ev.t) IN
           IF Ev.rc # 0 THEN 0 \in A
           ELSE /\ A # {0} /\ Ev.other = 0
                /\ ((\E i \in A \ {0} : Between(R[i], R[i + 1], Ev.t)) \/ AtKnot(R, Ev.t)))
TraceSpec == TraceInit /\ [][TraceNext]_<<F, up, top, l>>
=============================================================================
