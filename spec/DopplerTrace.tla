---------------------------- MODULE DopplerTrace ----------------------------
EXTENDS RinexHeader, RinexData, Doppler, TraceIO
VARIABLES H, D, up
vars == <<H, D, up, l>>
Abs(x) == IF x < 0 THEN -x ELSE x
TraceInit == H = H0 /\ D = <<>> /\ up = FALSE /\ l = 1
Col(c) == IF \E i \in 1..Len(H.obs) : H.obs[i] = c THEN CHOOSE i \in 1..Len(H.obs) : H.obs[i] = c ELSE 0
\* the blocks of the file up to its end or its first error
RECURSIVE Read(_, _)
Read(p, acc) == LET n == NextBlock(D, Len(H.obs), p) IN
  IF n.res = "blk" THEN Read(n.pos, Append(acc, [i \in 1..Len(n.obs) |-> [b |-> n.obs[i].id, p1 |-> n.obs[i].vs[Col("L1")], p2 |-> n.obs[i].vs[Col("L2")], t |-> D[p]]]))
  ELSE [end |-> n.res, blocks |-> acc]
Milli(v) == (IF v.s = "-" THEN -1 ELSE 1) * (v.h * 1000 + v.l)
\* a difference of raw fields, in cycles and 1/100000 cycles, as reported (s h l)
Delta(e, a, b, f) == LET d == Milli(b) - Milli(a) h == Abs(d) \div (1000 * f) lo == ((Abs(d) % (1000 * f)) * 100) \div f IN
  /\ (e.s = 0 \/ d = 0 \/ (e.s < 0) = (d < 0) \/ (e.h = 0 /\ e.l <= 1))
  /\ \/ (e.h = h /\ Abs(e.l - lo) <= 1) \/ (e.h = h + 1 /\ e.l = 0 /\ lo >= 99999) \/ (e.h = h - 1 /\ e.l = 99999 /\ lo = 0)
\* elapsed time, in s and 1/10000000 s
Lapse(e, a, b) == LET n == b.ns - a.ns s == (b.d - a.d) * 86400 + b.sec - a.sec + (IF n < 0 THEN -1 ELSE 0) r == (IF n < 0 THEN n + 1000000000 ELSE n) \div 100 IN
  \/ (e.s = s /\ Abs(e.l - r) <= 1) \/ (e.s = s + 1 /\ e.l = 0 /\ r >= 9999999) \/ (e.s = s - 1 /\ e.l = 9999999 /\ r = 0)
\* the later epoch: day and 1/100000 of it
At(e, t) == LET x == (t.sec * 1000 + t.ns \div 1000000) \div 864 IN (e.d = t.d /\ Abs(e.l - x) <= 1) \/ (e.d = t.d + 1 /\ e.l = 0 /\ x >= 99998)
Count(e, c) == e.id = c.to.b /\ At(e.at, c.to.t) /\ Lapse(e.dt, c.from.t, c.to.t) /\ Delta(e.d1, c.from.p1, c.to.p1, H.sf[Col("L1")]) /\ Delta(e.d2, c.from.p2, c.to.p2, H.sf[Col("L2")])
TraceNext ==
  \/ IsEvent("File") /\ H' = Header(Ev.top, Ev.head) /\ D' = Ev.data /\ up' = FALSE
  \/ IsEvent("Open") /\ UNCHANGED <<H, D>> /\ up' = (Ev.rc = 0) /\ up' = (H.s = "ok")
  \/ IsEvent("Next") /\ UNCHANGED <<H, D, up>>                                      \* reading blocks before changes nothing
  \/ IsEvent("Counts") /\ UNCHANGED <<H, D, up>>
       /\ (IF ~up THEN TRUE
           ELSE IF Col("L1") = 0 \/ Col("L2") = 0 THEN Ev.rc # 0 /\ Ev.out = <<>>
           ELSE LET R == Read(1, <<>>) C == Counts(<<>>, R.blocks) IN
                /\ (IF R.end = "err" THEN Ev.rc # 0 ELSE R.blocks = <<>> \/ Ev.rc = 0)
                /\ (IF Ev.rc = 0 THEN Len(Ev.out) = Len(C) ELSE Len(Ev.out) <= Len(C))
                /\ \A i \in 1..Len(Ev.out) : Count(Ev.out[i], C[i]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
