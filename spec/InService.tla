------------------------------ MODULE InService ------------------------------
(* Beacons in service at an epoch.  A table: a sequence of lines, the first of   *)
(* which is a heading; a row has id, h (height) and its interval [from, to);     *)
(* other lines are malformed.  Before(a, b): a is an earlier epoch than b.       *)
EXTENDS Integers, Sequences
CONSTANT Before(_, _)
Within(row, t) == ~Before(t, row.from) /\ Before(t, row.to)
\* reading line by line
RECURSIVE Step(_, _, _)
Step(F, t, acc) == IF F = <<>> THEN [rc |-> 0, list |-> acc]
  ELSE IF Head(F).k # "row" THEN [rc |-> 1, list |-> <<>>]
  ELSE Step(Tail(F), t, IF Within(Head(F), t) THEN Append(acc, Head(F)) ELSE acc)
Load(F, t) == IF F = <<>> THEN [rc |-> 0, list |-> <<>>] ELSE Step(Tail(F), t, <<>>)
=============================================================================
