------------------------------- MODULE Config -------------------------------
(* A configuration: nested sections by name, with values at their ends.  A     *)
(* lookup names a path; its answer is the value there as the type asked for,   *)
(* or an error - never the value of another section, nor part of a value.      *)
(* Nodes: [t, k, c, s, i, m]: kind, names and children; text, and what it says *)
(* as an integer and in thousandths (empty when it says nothing of the kind).  *)
EXTENDS Integers, Sequences
Missing == [t |-> "missing"]
Child(n, key) == IF n.t /= "map" THEN Missing
                 ELSE LET I == {j \in 1..Len(n.k) : n.k[j] = key} IN IF I = {} THEN Missing ELSE n.c[CHOOSE j \in I : TRUE]
RECURSIVE Walk(_, _)
Walk(n, path) == IF path = <<>> THEN n ELSE Walk(Child(n, Head(path)), Tail(path))
\* <<value>> or <<>> for an error
As(n, type) == IF n.t /= "scalar" THEN <<>>
               ELSE CASE type \in {"str", "buf"} -> <<n.s>> [] type = "int" -> n.i [] type = "real" -> n.m
Lookup(root, path, type) == As(Walk(root, path), type)
=============================================================================
