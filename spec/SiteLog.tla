------------------------------ MODULE SiteLog -------------------------------
(* Site logs: numbered blocks of numbered parts of named fields.  A field is a *)
(* line "name : value" and the lines that go on with it.  Reading block n      *)
(* gives, for each of its parts in order, its fields and nothing of others.    *)
EXTENDS Integers, Sequences
\* documents: sequences of blocks [nr, parts]; a part is a sequence of fields [key, pieces]
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o " " \o Join(Tail(p))
Fields(part) == [i \in 1..Len(part) |-> <<part[i].key, Join(part[i].pieces)>>]
Block(doc, n) == LET I == {i \in 1..Len(doc) : doc[i].nr = n} IN IF I = {} THEN <<>> ELSE doc[CHOOSE i \in I : TRUE].parts
Has(doc, n) == \E i \in 1..Len(doc) : doc[i].nr = n
Parts(doc, n) == LET P == SelectSeq(Block(doc, n), LAMBDA p : p /= <<>>) IN [i \in 1..Len(P) |-> Fields(P[i])]
\* lines of a document
RECURSIVE FieldLines(_), PartLines(_, _, _), BlockLines(_), Lines(_)
FieldLines(f) == IF f = <<>> THEN <<>> ELSE <<[k |-> "field", key |-> Head(f).key, v |-> Head(f).pieces[1]]>> \o [i \in 1..(Len(Head(f).pieces) - 1) |-> [k |-> "on", key |-> "", v |-> Head(f).pieces[i + 1]]] \o FieldLines(Tail(f))
PartLines(n, i, p) == IF p = <<>> THEN <<>> ELSE <<[k |-> "part", key |-> "", v |-> n]>> \o FieldLines(Head(p)) \o PartLines(n, i + 1, Tail(p))
BlockLines(b) == <<[k |-> "block", key |-> "", v |-> b.nr]>> \o PartLines(b.nr, 1, b.parts)
Lines(doc) == IF doc = <<>> THEN <<>> ELSE BlockLines(Head(doc)) \o Lines(Tail(doc))
=============================================================================
