--------------------------- MODULE IcgemDataTrace ---------------------------
EXTENDS IcgemData, TraceIO
\* cells (n, m), m <= n <= cd, in the order the events list them
Pos(n, m) == (n * (n + 1)) \div 2 + m + 1
All(cd) == {<<n, m>> \in (0..cd) \X (0..cd) : m <= n}
Before(i) == <<-4000 - 10 * i[1] - i[2], IF i[2] = 0 THEN 0 ELSE -5000 - 10 * i[1] - i[2]>>
Now(i) == <<Ev.C[Pos(i[1], i[2])], Ev.S[Pos(i[1], i[2])]>>
RECURSIVE Ratio(_, _)
Ratio(n, m) == IF m = 0 THEN 1 ELSE Ratio(n, m - 1) * (n + m) * (n - m + 1)
Sq(v) == IF v < 0 THEN -v * v ELSE v * v
W(v, i, den) == IF den THEN Sq(v) * (2 * i[1] + 1) * (IF i[2] = 0 THEN 1 ELSE 2) ELSE Sq(v) * Ratio(i[1], i[2])
HasBad == \E j \in 1..Len(Ev.rs) : Ev.rs[j].q = "bad"
RQ == [l |-> Ev.l, m |-> Ev.m, deg |-> Ev.deg]
TraceInit == DInit([l |-> 0, m |-> 0, deg |-> 0]) /\ l = 1
TraceNext ==
  \/ /\ IsEvent("Data")
     /\ LET r == IF Allowed(RQ, Ev.cd) THEN DataOf(RQ, Ev.rs) ELSE [st |-> "err", got |-> <<>>]
            W1 == IF Allowed(RQ, Ev.cd) THEN Win(RQ) ELSE {}
        IN /\ d' = r /\ rq' = RQ /\ seen' = <<>>
           /\ Ev.rh = 0
           /\ IF r.st = "err" THEN Ev.rc # 0
              ELSE \/ /\ Ev.rc = 0
                      /\ \A i \in W1 : Now(i) = IF i[2] = 0 THEN <<r.got[i][1], 0>> ELSE r.got[i]
                      /\ Ev.hasgm = 1 => (Ev.gm = Ev.mgm /\ Ev.re = Ev.mre /\ Ev.norm = Ev.mnorm)
                   \/ /\ Ev.rc # 0 /\ HasBad      \* a malformed record after the last needed one may also be reported
           /\ \A i \in All(Ev.cd) \ W1 : Now(i) = Before(i)
  \/ /\ IsEvent("Model")                     \* the one-call driver: container resized to the requested degree, optionally denormalised
     /\ LET r == IF Allowed(RQ, Ev.l) THEN DataOf(RQ, Ev.rs) ELSE [st |-> "err", got |-> <<>>]
            den == Ev.den = 1 /\ Ev.mnorm = 1
        IN /\ d' = r /\ rq' = RQ /\ seen' = <<>>
           /\ IF r.st = "err" THEN Ev.rc # 0
              ELSE \/ /\ Ev.rc = 0 /\ Ev.cd = Ev.l
                      /\ \A i \in Win(RQ) : Now(i) = <<W(r.got[i][1], i, den), IF i[2] = 0 THEN 0 ELSE W(r.got[i][2], i, den)>>
                      /\ Ev.gm = Ev.mgm /\ Ev.re = Ev.mre /\ Ev.norm = (IF den THEN 0 ELSE Ev.mnorm)
                   \/ Ev.rc # 0 /\ HasBad
TraceSpec == TraceInit /\ [][TraceNext]_<<d, rq, seen, l>>
=============================================================================
