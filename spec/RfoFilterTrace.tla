--------------------------- MODULE RfoFilterTrace ---------------------------
EXTENDS RinexHeader, RinexData, RfoFilter, TraceIO
VARIABLES fs, out
vars == <<fs, out, l>>
TraceInit == fs = <<>> /\ out = <<>> /\ l = 1
Col(H) == IF \E i \in 1..Len(H.obs) : H.obs[i] = "F0" THEN CHOOSE i \in 1..Len(H.obs) : H.obs[i] = "F0" ELSE 0
Eighths(e) == e.d * 8 + e.sec \div 10800
Val(v, f) == (IF v.s = "-" THEN -1 ELSE 1) * ((v.h * 1000 + v.l) \div f)
\* readings of a file up to its end or its first error
RECURSIVE Read(_, _, _, _)
Read(H, D, p, acc) == LET b == NextBlock(D, Len(H.obs), p) c == Col(H) IN
  IF b.res # "blk" THEN [end |-> b.res, rs |-> acc]
  ELSE IF b.obs = <<>> THEN Read(H, D, b.pos, acc)
  ELSE IF b.obs[1].vs[c].s = "m" THEN Read(H, D, b.pos, acc)
  ELSE LET v == Val(b.obs[1].vs[c], H.sf[c]) IN
       IF \E i \in 1..Len(b.obs) : b.obs[i].vs[c].s = "m" \/ Val(b.obs[i].vs[c], H.sf[c]) # v THEN [end |-> "err", rs |-> acc]
       ELSE Read(H, D, b.pos, Append(acc, [t |-> Eighths(D[p]), z |-> v]))
Content(i) == IF fs[i].H.s # "ok" \/ Col(fs[i].H) = 0 THEN [end |-> "err", rs |-> <<>>] ELSE Read(fs[i].H, fs[i].D, 1, <<>>)
RECURSIVE All(_, _)
All(ix, acc) == IF ix = <<>> THEN [end |-> "eof", rs |-> acc]
                ELSE LET r == Content(Head(ix)) IN IF r.end = "err" THEN [end |-> "err", rs |-> acc \o r.rs] ELSE All(Tail(ix), acc \o r.rs)
\* est[n] = <<time, reading (milli), offset (1e-4), its inverse variance (milli), drift per day (1e-4), its inverse variance>>
Good(ev, R, n) == LET e == ev.est[n] IN
  /\ e[1] = R[1].t + R[n].k /\ e[2] = R[n].z
  \* (readings lie close to a line: nothing sensible is further away than this, and the sums below stay small)
  /\ e[3] > -2000000 /\ e[3] < 2000000 /\ Abs(e[3] - 10 * R[1].z) <= 80000 /\ e[5] > -60000 /\ e[5] < 120000
  /\ \A i \in 1..n : Abs(Res(R, i, 10, e[3], e[5])) <= 640000
  /\ Optimal(ev.w, R, n, 10, e[3], e[5], 10 * R[1].z, 30000)
  /\ Confidence(ev.w, R, n, e[4], e[6])
\* the fitted line over the first week of 2021, at the eighths of days
Line(ev, R) == LET e == ev.est[Len(ev.est)] IN
  /\ ev.nfit = 20160 /\ Len(ev.fit) = 56
  /\ \A i \in 1..56 : ev.fit[i][1] = 59215 * 8 + i - 1
  /\ \A i \in 1..56 : LET k == ev.fit[i][1] - R[1].t IN Abs(k) <= 2000 => Abs(8 * ev.fit[i][2] - 8 * e[3] - k * e[5]) <= 9 + Abs(k)
TraceNext ==
  \/ IsEvent("Files") /\ fs' = [i \in 1..Len(Ev.fs) |-> [H |-> IF Ev.fs[i].there = 1 THEN Header(Ev.fs[i].top, Ev.fs[i].head) ELSE Fail(H0), D |-> Ev.fs[i].data]] /\ out' = <<>>
  \/ IsEvent("Kal") /\ UNCHANGED fs /\ out' = <<Ev.rc>>
       /\ LET A == All(Ev.ix, <<>>) R == [i \in 1..Len(A.rs) |-> [t |-> A.rs[i].t, k |-> A.rs[i].t - A.rs[1].t, z |-> A.rs[i].z]]
              fails == A.end = "err" \/ Content(Ev.ix[1]).rs = <<>> IN
          /\ (fails => Ev.rc # 0 /\ Ev.model = <<>>) /\ (~fails => Ev.rc = 0 /\ Len(Ev.est) = Len(R))
          /\ Len(Ev.est) <= Len(R) /\ \A n \in 1..Len(Ev.est) : Good(Ev, R, n)
          /\ (~fails => Len(Ev.model) = 2 /\ Abs(Ev.model[1] - Ev.est[Len(Ev.est)][3]) <= 1 /\ Abs(Ev.model[2] - Ev.est[Len(Ev.est)][5]) <= 1 /\ Line(Ev, R))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
