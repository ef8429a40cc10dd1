-------------------------- MODULE FreqOffsetTrace --------------------------
EXTENDS RinexHeader, RinexData, FreqOffset, TraceIO, FiniteSets
VARIABLES fs, fit
vars == <<fs, fit, l>>
TraceInit == fs = <<>> /\ fit = <<>> /\ l = 1
Col(H, c) == IF \E i \in 1..Len(H.obs) : H.obs[i] = c THEN CHOOSE i \in 1..Len(H.obs) : H.obs[i] = c ELSE 0
\* half seconds since a reference date
Ticks(t, ref) == ((t.d - ref[1]) * 86400 + t.sec - ref[2]) * 2 + t.ns \div 500000000
Offset(H, e) == IF H.rcv = 1 \/ e.offp = 0 THEN 0 ELSE e.off \div 500000000
\* the blocks of a file up to its end or its first error: epoch record and value (milli, -1 when there is none) of the first beacon
RECURSIVE Read(_, _, _, _)
Read(H, D, p, acc) == LET b == NextBlock(D, Len(H.obs), p) IN
  IF b.res # "blk" THEN [end |-> b.res, bs |-> acc]
  ELSE LET v == IF b.obs = <<>> THEN Blank ELSE b.obs[1].vs[Col(H, "F0")] c == Col(H, "F0") IN
       Read(H, D, b.pos, Append(acc, [e |-> D[p], p |-> v.s # "m", f |-> IF v.s = "m" THEN 0 ELSE (IF v.s = "-" THEN -1 ELSE 1) * ((v.h * 1000 + v.l) \div H.sf[c])]))
\* the readings of a file within [from, to), on the chosen scale; what the file ends with, as far as it is read (up to the end of the window)
Readings(H, bs, ref, tai, from, to) ==
  LET In(x) == LET t == Ticks(x.e, ref) + Offset(H, x.e) IN from <= t /\ t < to /\ x.p IN
  LET S == SelectSeq(bs, In) IN [i \in 1..Len(S) |-> [f |-> S[i].f, t |-> Ticks(S[i].e, ref) + (IF tai = 1 THEN Offset(H, S[i].e) ELSE 0)]]
RECURSIVE Collect(_, _, _)
Collect(names, ref, q) == IF names = <<>> THEN <<>> ELSE
  LET x == fs[Head(names)] R == Read(x.H, x.D, 1, <<>>) IN PointsOf(Readings(x.H, R.bs, ref, q.tai, q.from, q.to), q.n) \o Collect(Tail(names), ref, q)
Useless(i) == fs[i].H.s # "ok" \/ Col(fs[i].H, "F0") = 0
Broken(i, q, ref) == LET x == fs[i] R == Read(x.H, x.D, 1, <<>>) IN
  IF R.end # "err" THEN "no" ELSE IF \E j \in 1..Len(R.bs) : Ticks(R.bs[j].e, ref) + Offset(x.H, R.bs[j].e) >= q.to THEN "maybe" ELSE "yes"
Value(ev, t) == LET i == CHOOSE i \in 1..Len(ev.at) : ev.at[i] = t IN ev.v[i]
TraceNext ==
  \/ IsEvent("Files") /\ fs' = [i \in 1..Len(Ev.fs) |-> [H |-> IF Ev.fs[i].there = 1 THEN Header(Ev.fs[i].top, Ev.fs[i].head) ELSE Fail(H0), D |-> Ev.fs[i].data]] /\ fit' = <<>>
  \* at: where the model is evaluated (in quarters of seconds from the first file's reference date), v: its values there (milli)
  \/ IsEvent("Fit") /\ UNCHANGED fs /\ fit' = <<Ev.rc>>
       /\ IF \E i \in 1..Len(Ev.ix) : Useless(Ev.ix[i]) THEN Ev.rc # 0 ELSE
          LET ref == fs[Ev.ix[1]].H.refdate bad == {Broken(Ev.ix[i], Ev, ref) : i \in 1..Len(Ev.ix)} IN
          IF "yes" \in bad THEN Ev.rc # 0
          ELSE LET P == Collect(Ev.ix, ref, Ev) IN
               IF P = <<>> THEN Ev.rc # 0
               ELSE /\ (bad = {"no"} => Ev.rc = 0)
                    /\ (Ev.rc = 0 =>
                          /\ \A i \in 1..Len(P) : (\E j \in 1..Len(Ev.at) : Ev.at[j] = P[i].mid2) /\ P[i].sum % P[i].k = 0       \* the script asks where it should
                          /\ (\/ \E i \in 0..(Ev.order - 1) : Cardinality({P[j].mid2 : j \in 1..Len(P)}) = i + 1              \* not enough points for the order
                              \/ Fits(P, Ev.lim, [i \in 1..Len(P) |-> Value(Ev, P[i].mid2)], Ev.order)))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
