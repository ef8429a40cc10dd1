------------------------------ MODULE Attitude ------------------------------
(* Satellite attitude file: lines that are comments, unreadable, or records (time, angle). *)
(* A reader holds a window of the last W records read and moves forward only.              *)
EXTENDS Integers, Sequences
Readable(F) == SelectSeq(F, LAMBDA L : L.k = "rec")
BadBefore(F, n) == \E i \in 1..Len(F) : F[i].k = "bad" /\ Len(Readable(SubSeq(F, 1, i))) < n   \* an unreadable line before the n-th record
Opens(F) == Len(Readable(F)) >= 2 /\ ~BadBefore(F, 2)
\* ---- the property.  top: the latest time asked for before.  Result 0: an error, i: between the records i and i+1.
Bracket(R, t) == CHOOSE i \in 1..(Len(R) - 1) : R[i].t <= t /\ t < R[i + 1].t
Allowed(F, top, t) ==
  LET R == Readable(F) IN
  IF t < R[1].t \/ t > R[Len(R)].t THEN {0}
  ELSE IF t = R[Len(R)].t THEN {0} \cup {i \in 1..(Len(R) - 1) : R[i + 1].t = t}
  ELSE LET i == Bracket(R, t) IN {i} \cup (IF t < top \/ BadBefore(F, i + 1) THEN {0} ELSE {})
\* ---- the reader: buf holds the numbers of the last W records, pos lines of the file are consumed
RECURSIVE NextRec(_, _)
NextRec(F, p) == IF p > Len(F) THEN [ok |-> FALSE, p |-> p]                   \* nothing left
                 ELSE IF F[p].k = "skip" THEN NextRec(F, p + 1)
                 ELSE [ok |-> F[p].k = "rec", p |-> p + 1]
Num(F, p) == Len(Readable(SubSeq(F, 1, p - 1)))                              \* number of the record just read
FindIn(R, buf, t) ==
  LET I == {j \in 1..(Len(buf) - 1) : R[buf[j]].t <= t /\ t < R[buf[j + 1]].t} IN
  IF I # {} THEN CHOOSE j \in I : \A m \in I : m <= j
  ELSE IF t < R[buf[1]].t THEN -1 ELSE 0
RECURSIVE Hunt(_, _, _, _)
Hunt(F, buf, p, t) ==
  LET R == Readable(F) j == FindIn(R, buf, t) IN
  IF j > 0 THEN [res |-> buf[j], buf |-> buf, pos |-> p]
  ELSE IF j < 0 THEN [res |-> 0, buf |-> buf, pos |-> p]
  ELSE LET n == NextRec(F, p) IN
       IF ~n.ok THEN [res |-> 0, buf |-> buf, pos |-> n.p]
       ELSE Hunt(F, Append(Tail(buf), Num(F, n.p)), n.p, t)
=============================================================================
