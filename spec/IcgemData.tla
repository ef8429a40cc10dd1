----------------------------- MODULE IcgemData -----------------------------
(* Reading the coefficient records of a gravity-model file into a window of   *)
(* degree l and order m (property C06), as a machine over the records.        *)
(* A record is [n, m, c, s, q]; q: "ok", "bad" (a malformed or impossible     *)
(* record), "text" (not a coefficient line).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Win(rq) == {<<n, m>> \in (0..rq.l) \X (0..rq.l) : m <= n /\ m <= rq.m}
\* a request names the window, the model's and the container's degree
Allowed(rq, cd) == rq.l <= rq.deg /\ rq.m <= rq.l /\ rq.l <= cd
D0 == [st |-> "run", got |-> <<>>]
Has(d, i) == i \in DOMAIN d.got
Complete(d, rq) == \A i \in Win(rq) : Has(d, i)
\* whatever follows a complete window may or may not be looked at: st = "full"
DStep(d, rq, R) ==
  IF d.st # "run" THEN d
  ELSE IF R.q = "text" THEN d
  ELSE IF R.q = "bad" THEN [d EXCEPT !.st = "err"]
  ELSE LET i == <<R.n, R.m>> IN
       IF i \notin Win(rq) THEN d
       ELSE LET e == [d EXCEPT !.got = (i :> <<R.c, R.s>>) @@ @]
            IN IF Complete(e, rq) THEN [e EXCEPT !.st = "full"] ELSE e
Deg1(rq) == {i \in Win(rq) : i[1] = 1}
DEof(d, rq) == IF d.st = "full" THEN [d EXCEPT !.st = "ok"]
               ELSE IF d.st = "err" THEN d
               ELSE IF rq.l >= 1 /\ {i \in Win(rq) : ~Has(d, i)} = Deg1(rq)
                    THEN [st |-> "ok", got |-> [i \in Deg1(rq) |-> <<0, 0>>] @@ d.got]
               ELSE [d EXCEPT !.st = "err"]
RECURSIVE DFold(_, _, _, _)
DFold(d, rq, rs, i) == IF i > Len(rs) THEN DEof(d, rq) ELSE DFold(DStep(d, rq, rs[i]), rq, rs, i + 1)
DataOf(rq, rs) == DFold(D0, rq, rs, 1)

VARIABLES d, rq, seen
dvars == <<d, rq, seen>>
DInit(R) == d = D0 /\ rq = R /\ seen = <<>>
DRead(R) == d.st \in {"run", "full"} /\ d' = DStep(d, rq, R) /\ seen' = Append(seen, R) /\ UNCHANGED rq
DEnd == d.st \in {"run", "full"} /\ d' = DEof(d, rq) /\ UNCHANGED <<rq, seen>>

\* ---- design properties: the machine against a set-based definition, for files without repeated cells
Recs(rs) == {rs[j] : j \in 1..Len(rs)}
Cells(rs) == {<<R.n, R.m>> : R \in {x \in Recs(rs) : x.q = "ok"}}
NoRepeat(rs) == \A i, j \in 1..Len(rs) : (i # j /\ rs[i].q = "ok" /\ rs[j].q = "ok") => <<rs[i].n, rs[i].m>> # <<rs[j].n, rs[j].m>>
NoBad(rs) == \A j \in 1..Len(rs) : rs[j].q # "bad"
OkExact == d.st = "ok" => \A i \in Win(rq) : \/ \E R \in Recs(seen) : R.q = "ok" /\ <<R.n, R.m>> = i /\ d.got[i] = <<R.c, R.s>>
                                             \/ i[1] = 1 /\ i \notin Cells(seen) /\ d.got[i] = <<0, 0>>
OkNothingElse == DOMAIN d.got \subseteq Win(rq)
OkIff == (NoRepeat(seen) /\ NoBad(seen)) => (d.st = "err" => \E i \in Win(rq) : i \notin Cells(seen))
OrderFree == (d.st \in {"ok", "err"} /\ NoRepeat(seen) /\ NoBad(seen)) =>
               LET rev == [j \in 1..Len(seen) |-> seen[Len(seen) + 1 - j]] IN DataOf(rq, rev).st = d.st /\ (d.st = "ok" => DataOf(rq, rev).got = d.got)
=============================================================================
