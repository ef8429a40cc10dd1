-------------------------------- MODULE C04 --------------------------------
(* Reading an Earth-orientation (C04) file for the days [start, end).           *)
(* A file is a sequence of lines: "skip" (comment, header, empty), "day" (with   *)
(* day number d, ok = all columns readable, v = the six values) and "bad" (no    *)
(* readable day number).  The reader walks through it once.                      *)
EXTENDS Integers, Sequences
VARIABLES st, pos, rows                 \* st: "scan", "ok", "err"; rows: what the table holds
C04Init == st = "scan" /\ pos = 1 /\ rows = <<>>
Take(L) == rows' = Append(rows, [d |-> L.d, v |-> L.v]) /\ pos' = pos + 1 /\ UNCHANGED st
Over == pos' = pos + 1 /\ UNCHANGED <<st, rows>>
Refuse == st' = "err" /\ UNCHANGED <<pos, rows>>
Close(s, e) == st' = (IF Len(rows) = e - s THEN "ok" ELSE "err") /\ UNCHANGED <<pos, rows>>
In(L, s, e) == L.k = "day" /\ L.d >= s /\ L.d < e
ScanStep(F, s, e) ==
  /\ st = "scan"
  /\ (IF e < s THEN Refuse
      ELSE IF pos > Len(F) THEN Close(s, e)
      ELSE LET L == F[pos] IN
           CASE L.k = "skip" -> Over
             [] L.k = "bad" -> Over \/ Refuse              \* a line that is no day at all: passed over or refused
             [] L.k = "day" /\ L.d < s -> Over
             [] L.k = "day" /\ L.d >= e -> Over \/ Close(s, e)   \* the interval lies behind (or the file is not in order)
             [] OTHER -> IF L.ok /\ L.d = s + Len(rows) THEN Take(L) ELSE Refuse)
\* the outcomes the walk can have, as a function (for recorded reads)
RECURSIVE Walk(_, _, _, _, _)
Walk(F, s, e, i, acc) ==
  IF e < s THEN {[ok |-> FALSE, rows |-> <<>>]}
  ELSE LET fin == {[ok |-> Len(acc) = e - s, rows |-> acc]} IN
  IF i > Len(F) THEN fin
  ELSE LET L == F[i] IN
       IF L.k = "skip" \/ (L.k = "day" /\ L.d < s) THEN Walk(F, s, e, i + 1, acc)
       ELSE IF L.k = "bad" THEN Walk(F, s, e, i + 1, acc) \cup {[ok |-> FALSE, rows |-> <<>>]}
       ELSE IF L.d >= e THEN fin \cup Walk(F, s, e, i + 1, acc)
       ELSE IF L.ok /\ L.d = s + Len(acc) THEN Walk(F, s, e, i + 1, Append(acc, [d |-> L.d, v |-> L.v]))
       ELSE {[ok |-> FALSE, rows |-> <<>>]}
Outcomes(F, s, e) == Walk(F, s, e, 1, <<>>)
\* ---- the property itself, without the walk
DaysIn(F, s, e) == SelectSeq(F, LAMBDA L : In(L, s, e))
Listed(F, s, e) == LET D == DaysIn(F, s, e) IN e >= s /\ Len(D) = e - s /\ \A i \in 1..Len(D) : D[i].d = s + i - 1 /\ D[i].ok
InOrder(F) == \A i, j \in 1..Len(F) : (i < j /\ F[i].k = "day" /\ F[j].k = "day") => F[i].d < F[j].d
NoBad(F) == \A i \in 1..Len(F) : F[i].k # "bad"
=============================================================================
