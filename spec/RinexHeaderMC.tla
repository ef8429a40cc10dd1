--------------------------- MODULE RinexHeaderMC ---------------------------
EXTENDS RinexHeader, FiniteSets, TLC, Json
CONSTANTS N, Emit
VARIABLES F, h, n0
B(c) == [c |-> c, id |-> "X", name |-> "", domes |-> "", t |-> 3, k |-> 0]
Lines ==
  {[k |-> "obs", n |-> n, cs |-> cs] : n \in {0, 1, 2}, cs \in {<<"L1">>, <<"L1", "C2">>}}
  \cup {[k |-> "sf", f |-> f, all |-> FALSE, cs |-> cs] : f \in {10, 100}, cs \in {<<"L1">>, <<"C2">>}}
  \cup {[k |-> "sf", f |-> 7, all |-> TRUE, cs |-> <<>>], [k |-> "sf", f |-> 0, all |-> TRUE, cs |-> <<>>]}
  \cup {[k |-> "rcv", v |-> v] : v \in {1, 2}} \cup {[k |-> "off", v |-> 2]}
  \cup {[k |-> "nst", n |-> n] : n \in {0, 1, 2}} \cup {[k |-> "st", b |-> B(c)] : c \in {"D01", "D02"}}
  \cup {[k |-> "nref", n |-> 1], [k |-> "ref", c |-> "D01"], [k |-> "skip"], [k |-> "bad"], [k |-> "eoh"]}
Base == << [k |-> "nst", n |-> 2], [k |-> "obs", n |-> 2, cs |-> <<"L1", "C2">>], [k |-> "st", b |-> B("D01")], [k |-> "st", b |-> B("D02")] >>
FoldAll(G) == LET f[i \in 0..Len(G)] == IF i = 0 THEN H0 ELSE HStep(f[i - 1], G[i]) IN f[Len(G)]
Init == F \in {<<>>, Base} /\ h = FoldAll(F) /\ n0 = Len(F)
Next == h.s = "read" /\ Len(F) < n0 + N /\ UNCHANGED n0 /\ \E L \in Lines : (L.k = "obs" => h.obs = <<>>) /\ F' = Append(F, L) /\ h' = HStep(h, L)
Spec == Init /\ [][Next]_<<F, h, n0>>
\* ---- the property, stated over the whole list of lines
Ix(k) == {i \in 1..Len(F) : F[i].k = k}
Last(k) == CHOOSE i \in Ix(k) : \A j \in Ix(k) : j <= i
ListedBefore(i) == \E j \in Ix("st") : j < i /\ F[j].b.c = F[i].c
Good == /\ Ix("bad") = {} /\ Ix("obs") # {}
        /\ \A i \in Ix("obs") : F[i].n \in 1..Len(F[i].cs)
        /\ \A i \in Ix("sf") : F[i].f # 0 /\ (\E j \in Ix("obs") : j < i) /\ (F[i].all \/ Range(F[i].cs) \subseteq Range(h.obs))
        /\ \A i \in Ix("rcv") : F[i].v \in {0, 1}
        /\ \A i \in Ix("nst") \cup Ix("nref") : F[i].n # 0
        /\ \A i \in Ix("ref") : ListedBefore(i)
        /\ Ix("nst") # {} /\ F[Last("nst")].n = Cardinality(Ix("st"))
        /\ (IF Ix("nref") = {} THEN Ix("ref") = {} ELSE F[Last("nref")].n = Cardinality(Ix("ref")))
        /\ Cardinality(Ix("ref")) < Cardinality(Ix("st"))
Names(i, o) == F[i].all \/ o \in Range(F[i].cs)
Factor(o) == LET S == {i \in Ix("sf") : Names(i, o)} IN IF S = {} THEN 1 ELSE F[CHOOSE i \in S : \A j \in S : j <= i].f
AllOrNothing == (Len(F) > 0 /\ F[Len(F)].k = "eoh") => ((h.s = "ok") = Good)
OwnLine == h.s = "ok" => /\ Len(h.sf) = Len(h.obs) /\ \A i \in 1..Len(h.obs) : h.sf[i] = Factor(h.obs[i])
                         /\ h.rcv = (IF Ix("rcv") = {} THEN 0 ELSE F[Last("rcv")].v)
                         /\ h.off = (IF Ix("off") = {} THEN 0 ELSE F[Last("off")].v)
\* exchanging neighbouring lines that do not build on each other changes nothing
Dep(a, b) == \/ (a.k = b.k /\ a.k # "skip") \/ {a.k, b.k} \in {{"obs", "sf"}, {"st", "ref"}} \/ a.k = "eoh" \/ b.k = "eoh"
OrderFree == h.s = "ok" => \A i \in 1..(Len(F) - 1) :
               ~Dep(F[i], F[i + 1]) => Fold(H0, [F EXCEPT ![i] = F[i + 1], ![i + 1] = F[i]], 1) = h
EmitBeh == (Emit /\ (h.s = "ok" \/ (h.s = "fail" /\ Len(F) = n0 + N))) => PrintT("BEH " \o ToJson(F))
=============================================================================
