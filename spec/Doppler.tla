------------------------------ MODULE Doppler ------------------------------
(* Doppler counts: the change of both phases of a beacon between successive   *)
(* observations of it.  An observation: b (beacon), p1, p2 (phases, "m" when  *)
(* missing), t (its epoch).  The machine keeps the latest one per beacon.     *)
EXTENDS Integers, Sequences
Usable(o) == o.p1.s # "m" /\ o.p2.s # "m"
Has(last, b) == \E i \in 1..Len(last) : last[i].b = b
Latest(last, b) == last[CHOOSE i \in 1..Len(last) : last[i].b = b]
\* the observations of one block, in its order
RECURSIVE CountsOf(_, _)
CountsOf(last, B) == IF B = <<>> THEN <<>> ELSE
  LET o == Head(B) IN (IF Has(last, o.b) /\ Usable(o) /\ Usable(Latest(last, o.b)) THEN <<[from |-> Latest(last, o.b), to |-> o]>> ELSE <<>>) \o CountsOf(last, Tail(B))
Keep(last, B) == SelectSeq(last, LAMBDA o : ~Has(B, o.b)) \o B
RECURSIVE Counts(_, _)
Counts(last, Blocks) == IF Blocks = <<>> THEN <<>> ELSE CountsOf(last, Head(Blocks)) \o Counts(Keep(last, Head(Blocks)), Tail(Blocks))
\* said without the machine: successive observations of one beacon, both usable (O: all observations in file order)
Pairs(O) == {<<i, j>> \in (1..Len(O)) \X (1..Len(O)) : i < j /\ O[i].b = O[j].b /\ Usable(O[i]) /\ Usable(O[j]) /\ ~\E k \in (i + 1)..(j - 1) : O[k].b = O[i].b}
=============================================================================
