------------------------------ MODULE IntrpMC ------------------------------
(* A scanning search (one comparison per step) against the definitions.       *)
EXTENDS Intrp, TLC, Json
CONSTANTS MaxN, Ys, Gaps, Emit
VARIABLES t, q, i, pc, hist
vars == <<t, q, i, pc, hist>>
MCInit == t = <<[x |-> 0, y |-> 0]>> /\ q = 0 /\ i = 0 /\ pc = "build" /\ hist = <<>>
Grow == pc = "build" /\ Len(t) < MaxN /\ \E g \in Gaps, y \in Ys : t' = Append(t, [x |-> t[Len(t)].x + g, y |-> y]) /\ UNCHANGED <<q, i, pc, hist>>
Ask == pc = "build" /\ Len(t) >= 2 /\ \E v \in (Lo(t) - 1)..(Hi(t) + 1) : q' = v /\ i' = 2 /\ pc' = "scan" /\ UNCHANGED <<t, hist>>
Stop == pc = "scan" /\ (q <= Lo(t) \/ i > Len(t)) /\ pc' = "done" /\ i' = 0 /\ UNCHANGED <<t, q, hist>>
Found == pc = "scan" /\ q > Lo(t) /\ i <= Len(t) /\ q >= t[i-1].x /\ q < t[i].x /\ pc' = "done" /\ UNCHANGED <<t, q, i, hist>>
Next1 == pc = "scan" /\ q > Lo(t) /\ i <= Len(t) /\ ~(q >= t[i-1].x /\ q < t[i].x) /\ i' = i + 1 /\ UNCHANGED <<t, q, pc, hist>>
MCSpec == MCInit /\ [][Grow \/ Ask \/ Stop \/ Found \/ Next1]_vars
\* the scan finds the bracket, or nothing exactly when there is none strictly inside
ScanRight == pc = "done" => IF Inside(t, q) THEN i = Bracket(t, q) ELSE i = 0
\* exact at nodes, bounded outside, bounded by the bracket (nearest, linear), a straight line is reproduced by all
Kinds == {"N", "L", "Q"}
Usable(k) == Len(t) >= MinSize(k)
Nodes == pc = "done" => \A k \in Kinds : Usable(k) => \A j \in 1..Len(t) : t[j].x = q => (Eq(Value(k, t, q), [n |-> t[j].y, d |-> 1]) /\ Status(t, q) = 0)
Outside == pc = "done" => \A k \in Kinds : Usable(k) => (q < Lo(t) => Value(k, t, q).n = t[1].y) /\ (q > Hi(t) => Value(k, t, q).n = t[Len(t)].y)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Between == (pc = "done" /\ Inside(t, q)) => LET f == Linear(t, q) IN
             /\ Min(t[i-1].y, t[i].y) * f.d <= f.n /\ f.n <= Max(t[i-1].y, t[i].y) * f.d
             /\ Nearest(t, q).n \in {t[i-1].y, t[i].y}
Straight == \E m \in -3..3 : \A j \in 1..Len(t) : t[j].y = m * t[j].x
Reproduces == (pc = "done" /\ Straight /\ Inside(t, q) /\ Len(t) >= 3) => Eq(Linear(t, q), Quadratic(t, q))
EmitBeh == (Emit /\ pc = "build" /\ Len(t) >= 2) => PrintT("BEH " \o ToJson(t))
=============================================================================
