---------------------------- MODULE RinexHeader ----------------------------
(* DORIS RINEX header: what a sequence of header lines means.  Lines (k):        *)
(*  obs (n announced, cs listed) / sf (f, all, cs) / off (v) / rcv (v) / nst (n) *)
(*  st (b: the beacon) / nref (n) / ref (c) / first (t) / refdate (t)            *)
(*  skip (any other label, short or unlabelled lines) / bad (malformed) / eoh    *)
EXTENDS Integers, Sequences
Range(s) == {s[i] : i \in 1..Len(s)}
H0 == [s |-> "read", obs |-> <<>>, sf |-> <<>>, off |-> 0, rcv |-> 0, nst |-> 0, st |-> <<>>, nref |-> 0, refs |-> 0, first |-> <<>>, refdate |-> <<>>]
Fail(h) == [h EXCEPT !.s = "fail"]
Ones(n) == [i \in 1..n |-> 1]
Complete(h) == /\ h.obs # <<>> /\ h.nst = Len(h.st) /\ h.nref = h.refs /\ h.refs < Len(h.st)
HStep(h, L) ==
  CASE L.k = "skip" -> h
    [] L.k = "bad" -> Fail(h)
    [] L.k = "obs" -> IF L.n < 1 \/ L.n > 12 \/ L.n > Len(L.cs) THEN Fail(h) ELSE [h EXCEPT !.obs = SubSeq(L.cs, 1, L.n)]
    [] L.k = "sf" -> IF L.f = 0 \/ h.obs = <<>> \/ (~L.all /\ (L.cs = <<>> \/ ~(Range(L.cs) \subseteq Range(h.obs)) \/ Len(L.cs) > Len(h.obs))) THEN Fail(h)
                     ELSE LET b == IF h.sf = <<>> THEN Ones(Len(h.obs)) ELSE h.sf IN
                          [h EXCEPT !.sf = [i \in 1..Len(h.obs) |-> IF L.all \/ h.obs[i] \in Range(L.cs) THEN L.f ELSE b[i]]]
    [] L.k = "off" -> [h EXCEPT !.off = L.v]
    [] L.k = "rcv" -> IF L.v \in {0, 1} THEN [h EXCEPT !.rcv = L.v] ELSE Fail(h)
    [] L.k = "nst" -> IF L.n = 0 THEN Fail(h) ELSE [h EXCEPT !.nst = L.n]
    [] L.k = "st" -> [h EXCEPT !.st = Append(@, L.b)]
    [] L.k = "nref" -> IF L.n = 0 THEN Fail(h) ELSE [h EXCEPT !.nref = L.n]
    [] L.k = "ref" -> IF \E i \in 1..Len(h.st) : h.st[i].c = L.c THEN [h EXCEPT !.refs = @ + 1] ELSE Fail(h)
    [] L.k = "first" -> [h EXCEPT !.first = L.t]
    [] L.k = "refdate" -> [h EXCEPT !.refdate = L.t]
    [] L.k = "eoh" -> IF Complete(h) THEN [h EXCEPT !.s = "ok", !.sf = IF @ = <<>> THEN Ones(Len(h.obs)) ELSE @] ELSE Fail(h)
RECURSIVE Fold(_, _, _)
Fold(h, F, i) == IF h.s # "read" THEN h ELSE IF i > Len(F) THEN Fail(h) ELSE Fold(HStep(h, F[i]), F, i + 1)
\* top: "ok" or not, the two fixed first lines
Header(top, F) == IF top THEN Fold(H0, F, 1) ELSE Fail(H0)
=============================================================================
