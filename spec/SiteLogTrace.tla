---------------------------- MODULE SiteLogTrace ----------------------------
EXTENDS SiteLog, TraceIO, FiniteSets
VARIABLES docs, ants \* logs of the directory; their antennas, as <<id, installed, removed, height>>: dates yyyymmdd, height in micrometres
vars == <<docs, ants, l>>
TraceInit == docs = <<>> /\ ants = <<>> /\ l = 1
Row(a) == <<a[1], a[2], 0, IF a[3] = 0 THEN 99991231 ELSE a[3], IF a[3] = 0 THEN 86399 ELSE 0, a[4]>>
Rows(as) == [i \in 1..Len(as) |-> Row(as[i])]
RECURSIVE All(_)
All(s) == IF s = <<>> THEN <<>> ELSE Rows(Head(s)) \o All(Tail(s))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* the file's rows one after the other
Within(s, t) == t = <<>> \/ \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
TraceNext ==
  \/ IsEvent("Dir") /\ docs' = <<>> /\ ants' = <<>>
  \/ IsEvent("Log") /\ docs' = Append(docs, Ev.doc) /\ ants' = Append(ants, Ev.ants)
  \* the fields of each part of a block; rc: 1 if the block is not there
  \/ IsEvent("Parse") /\ UNCHANGED <<docs, ants>>
       /\ IF Has(docs[Ev.log], Ev.nr) THEN Ev.rc = 0 /\ Ev.parts = Parts(docs[Ev.log], Ev.nr) ELSE Ev.rc = 1
  \/ IsEvent("Name") /\ UNCHANGED <<docs, ants>> /\ Ev.got = Ev.name
  \/ IsEvent("Dump") /\ UNCHANGED <<docs, ants>> /\ Ev.rc = 0 /\ Ev.rows = Rows(ants[Ev.log])
  \/ IsEvent("Table") /\ UNCHANGED <<docs, ants>> /\ Ev.rc = 0 /\ Ev.head = 1
       /\ LET W == All(ants) IN Len(Ev.rows) = Len(W) /\ \A k \in 1..Len(W) : Count(Ev.rows, W[k]) = Count(W, W[k])
       /\ \A i \in 1..Len(ants) : Within(Ev.rows, Rows(ants[i]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
