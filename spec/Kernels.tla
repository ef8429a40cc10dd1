------------------------------ MODULE Kernels ------------------------------
(* The pool of loaded ephemeris, leap-second and constants files, as the     *)
(* SPICE toolkit keeps it (an entry per load, in load order; a meta-kernel   *)
(* loads its files too), and loading on demand on top of it.                 *)
(* files: name -> [kind, kids, gm]; kinds "text", "spk", "pck" (binary), "meta" *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files, pool
In(p, f) == \E i \in 1..Len(p) : p[i] = f
Load(p, f) == p \o <<f>> \o (IF files[f].kind = "meta" THEN files[f].kids ELSE <<>>)
\* unloading removes the last load of the file, and with a meta-kernel one load of each of its files
RECURSIVE DropLast(_, _)
DropLast(p, f) == IF p = <<>> THEN p ELSE IF p[Len(p)] = f THEN SubSeq(p, 1, Len(p) - 1) ELSE Append(DropLast(SubSeq(p, 1, Len(p) - 1), f), p[Len(p)])
RECURSIVE DropAll(_, _)
DropAll(p, fs) == IF fs = <<>> THEN p ELSE DropAll(DropLast(p, Head(fs)), Tail(fs))
Unload(p, f) == IF In(p, f) THEN DropAll(p, <<f>> \o (IF files[f].kind = "meta" THEN files[f].kids ELSE <<>>)) ELSE p
\* the files a request of each kind is made for: leap seconds are text files, constants binary or text files
Requestable(kind, f) == files[f].kind \in (CASE kind = "lsk" -> {"text"} [] kind = "spk" -> {"spk"} [] OTHER -> {"pck", "text"})
Request(p, f) == IF In(p, f) THEN p ELSE Load(p, f)
\* constants come from the last loaded file that defines them (0: none does)
RECURSIVE Gm(_)
Gm(p) == IF p = <<>> THEN 0 ELSE IF files[p[Len(p)]].gm # 0 THEN files[p[Len(p)]].gm ELSE Gm(SubSeq(p, 1, Len(p) - 1))
Loads(p, f) == Cardinality({i \in 1..Len(p) : p[i] = f})
=============================================================================
