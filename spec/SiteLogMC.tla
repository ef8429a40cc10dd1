----------------------------- MODULE SiteLogMC ------------------------------
(* The reader, line by line, over all small documents.                         *)
EXTENDS SiteLog, TLC, Json
CONSTANTS Emit
VARIABLES doc, want, pos, inside, cur, out, state
vars == <<doc, want, pos, inside, cur, out, state>>
F == {[key |-> "a", pieces |-> <<"x">>], [key |-> "b", pieces |-> <<"y", "z">>]}
PartsOf == {<<>>} \cup {<<f>> : f \in F} \cup {<<[key |-> "a", pieces |-> <<"x", "w">>], [key |-> "b", pieces |-> <<"y">>]>>}
BlocksOf(n) == {[nr |-> n, parts |-> p] : p \in {<<>>} \cup {<<a>> : a \in PartsOf} \cup {<<a, b>> : a \in PartsOf, b \in PartsOf}}
Docs == {<<a>> : a \in BlocksOf(1)} \cup {<<a, b>> : a \in BlocksOf(1), b \in BlocksOf(2)} \cup {<<a, b, c>> : a \in BlocksOf(1), b \in BlocksOf(2), c \in {[nr |-> 3, parts |-> <<>>], [nr |-> 3, parts |-> <<(<<[key |-> "a", pieces |-> <<"q">>]>>)>>]}}
Init == doc \in Docs /\ want \in 1..3 /\ pos = 1 /\ inside = FALSE /\ cur = <<>> /\ out = <<>> /\ state = "read"
L == Lines(doc)
Flush == IF cur = <<>> THEN out ELSE Append(out, cur)
Read == /\ state = "read" /\ UNCHANGED <<doc, want>>
  /\ IF pos > Len(L) THEN state' = (IF inside THEN "done" ELSE "none") /\ out' = Flush /\ cur' = <<>> /\ UNCHANGED <<pos, inside>>
     ELSE LET x == L[pos] IN
       /\ pos' = pos + 1
       /\ IF ~inside THEN inside' = (x.k = "block" /\ x.v = want) /\ UNCHANGED <<cur, out, state>>
          ELSE CASE x.k = "block" -> state' = "done" /\ out' = Flush /\ cur' = <<>> /\ UNCHANGED inside
                 [] x.k = "part" -> out' = Flush /\ cur' = <<>> /\ UNCHANGED <<inside, state>>
                 [] x.k = "field" -> cur' = Append(cur, <<x.key, x.v>>) /\ UNCHANGED <<inside, out, state>>
                 [] x.k = "on" -> cur' = [cur EXCEPT ![Len(cur)][2] = @ \o " " \o x.v] /\ UNCHANGED <<inside, out, state>>
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)
Right == (state = "done" => out = Parts(doc, want) /\ Has(doc, want)) /\ (state = "none" => ~Has(doc, want))
Ends == <>(state \in {"done", "none"})
EmitBeh == (Emit /\ pos = 1 /\ want = 1) => PrintT("BEH " \o ToJson(doc))
=============================================================================
