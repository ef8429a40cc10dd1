----------------------------- MODULE BulletinMC -----------------------------
(* The search: from any first guess, over bulletins of any lengths, for any    *)
(* interval.  It ends; with the whole interval when there is one, else with an *)
(* error, never with part of it.                                               *)
EXTENDS Bulletin, TLC, Json
CONSTANTS K, W, Emit
VARIABLES world, lo, hi, at, prior, post, kept, state
vars == <<world, lo, hi, at, prior, post, kept, state>>
RECURSIVE Build(_, _, _)
Build(ws, j, first) == IF ws = <<>> THEN {} ELSE {<<j, first, first + Head(ws) - 1>>} \cup Build(Tail(ws), j + 1, first + Head(ws))
Worlds == {Build(ws, 1, 1) : ws \in [1..K -> 1..W]}
LastDay(w) == CHOOSE d \in {b[3] : b \in w} : \A b \in w : b[3] <= d
Init == world \in Worlds /\ \E a \in 1..(K * W), b \in 1..(K * W + 2) : a <= b /\ a <= LastDay(world) /\ lo = a /\ hi = b
        /\ at \in 1..K /\ prior = FALSE /\ post = FALSE /\ kept = <<>> /\ state = "search"
B(j) == CHOOSE b \in world : b[1] = j
Request ==
  /\ state = "search" /\ at \in 1..K
  /\ LET b == B(at) p == prior \/ Holds(b, lo) q == post \/ Holds(b, hi) IN
     /\ prior' = p /\ post' = q
     /\ kept' = IF Useful(b, lo, hi) /\ \A i \in 1..Len(kept) : kept[i] /= b THEN Append(kept, b) ELSE kept
     /\ state' = IF p /\ q THEN "merge" ELSE "search"
     /\ at' = IF ~p /\ b[2] > lo THEN at - 1 ELSE at + 1
  /\ UNCHANGED <<world, lo, hi>>
NotThere == state = "search" /\ at \notin 1..K /\ state' = "error" /\ UNCHANGED <<world, lo, hi, at, prior, post, kept>>
Days(b) == [i \in 1..(b[3] - b[2] + 1) |-> b[2] + i - 1]
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET b == CHOOSE b \in S : \A c \in S : b[2] <= c[2] IN Days(b) \o Cat(S \ {b})
Merge == state = "merge" /\ state' = "done" /\ UNCHANGED <<world, lo, hi, at, prior, post, kept>>
Next == Request \/ NotThere \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(state \in {"done", "error"})
Right == /\ (state = "done" => Covered(world, lo, hi) /\ Whole(Cat({kept[i] : i \in 1..Len(kept)}), lo, hi))
         /\ (state = "error" => ~Covered(world, lo, hi))
\* situations: where in their bulletins first and last day are, bulletins in between, first guess from the first needed
Pos(b, d) == IF d = b[2] THEN "first" ELSE IF d = b[3] THEN "last" ELSE "mid"
Of(d) == CHOOSE b \in world : Holds(b, d)
EmitBeh == (Emit /\ state = "search" /\ kept = <<>> /\ ~prior /\ hi <= LastDay(world)) =>
             PrintT("BEH " \o ToJson(<<Pos(Of(lo), lo), Pos(Of(hi), hi), Of(hi)[1] - Of(lo)[1], at - Of(lo)[1]>>))
ASSUME Civil(51544) = 20000101 /\ Civil(57753) = 20161231 /\ Civil(59580) = 20220101 /\ Civil(60369) = 20240229 /\ Civil(60370) = 20240301 /\ Civil(54802) = 20081202
=============================================================================
