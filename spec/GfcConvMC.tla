----------------------------- MODULE GfcConvMC -----------------------------
(* The converter line by line, over small files.                               *)
EXTENDS GfcConv, TLC, Json
CONSTANTS L, Emit
VARIABLES file, pos, head, out, state
vars == <<file, pos, head, out, state>>
Nums == {[s |-> s, i |-> "0", f |-> "5", x |-> x, e |-> "-3"] : s \in {"", "-"}, x \in {"D", "d", "e"}}
Lines == {<<>>, <<[w |-> "end_of_head"]>>, <<[w |-> "radius"], CHOOSE n \in Nums : n.x = "D">>, <<[w |-> "comment"]>>} \cup {<<[w |-> "gfc"], n>> : n \in Nums}
Init == file \in UNION {[1..n -> Lines] : n \in 0..L} /\ pos = 1 /\ head = TRUE /\ out = <<>> /\ state = "run"
Step == /\ state = "run" /\ UNCHANGED file
  /\ IF pos > Len(file) THEN state' = (IF head THEN "error" ELSE "done") /\ UNCHANGED <<pos, head, out>>
     ELSE LET x == file[pos] IN /\ out' = Append(out, [k \in 1..Len(x) |-> Low(x[k], ~head)]) /\ pos' = pos + 1 /\ UNCHANGED state
                                /\ head' = (head /\ (IF x = <<>> THEN TRUE ELSE x[1] /= [w |-> "end_of_head"]))
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Right == (state = "done" => End(file) > 0 /\ out = Converted(file)) /\ (state = "error" => End(file) = 0)
Ends == <>(state /= "run")
EmitBeh == (Emit /\ pos = 1 /\ state = "run") => PrintT("BEH " \o ToJson(file))
=============================================================================
