----------------------------- MODULE SiteCoords -----------------------------
(* Coordinates of requested sites from a solution file.  The file: sites (the   *)
(* codes it describes) and est, its estimates in file order: s (site), p        *)
(* (parameter), u (unit).  Ask: req (codes), strict (missing sites are errors). *)
EXTENDS Integers, Sequences
Axes == <<"X", "Y", "Z">>
Range(s) == {s[i] : i \in 1..Len(s)}
First(est, s, p) == LET S == {i \in 1..Len(est) : est[i].s = s /\ est[i].p = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Pair(est, s, a) == <<First(est, s, "STA" \o a), First(est, s, "VEL" \o a)>>
Good(est, s) == \A i \in 1..3 : LET q == Pair(est, s, Axes[i]) IN q[1] # 0 /\ q[2] # 0 /\ est[q[1]].u = "m" /\ est[q[2]].u = "m/y"
There(f, s) == s \in Range(f.sites)
\* per site: looked up, then extrapolated; a strict request stops at the first site that fails
RECURSIVE Walk(_, _, _, _)
Walk(f, req, strict, acc) ==
  IF req = <<>> THEN [rc |-> 0, list |-> acc]
  ELSE LET s == Head(req) ok == There(f, s) /\ Good(f.est, s) IN
       IF ok THEN Walk(f, Tail(req), strict, Append(acc, s)) ELSE IF strict THEN [rc |-> 1, list |-> acc] ELSE Walk(f, Tail(req), strict, acc)
Answer(f, req, strict) == Walk(f, req, strict, <<>>)
\* sites the file describes without all their coordinates: a request that allows missing sites may still be refused
Patchy(f, req) == \E i \in 1..Len(req) : There(f, req[i]) /\ ~Good(f.est, req[i])
=============================================================================
