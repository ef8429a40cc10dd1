------------------------------ MODULE Rkf45MC ------------------------------
EXTENDS Rkf45, TLC, Json
CONSTANTS N, Emit, Times, Rels, Abss
VARIABLES hist, done, at
mvars == <<ob, c, hist, done, at>>
Signs == {-1, 0, 1}
One == {1}
Sg(a, b) == IF b > a THEN 1 ELSE IF b < a THEN -1 ELSE 0
Keep == UNCHANGED <<hist, done>>
MCInit == hist = <<>> /\ done = FALSE /\ c = Idle /\ at = 0 /\ \E n \in {0, 1}, r \in Rels, a \in Abss : ob = Obj(n, r, a)
Ask == /\ c.st = "idle" /\ Len(hist) < N /\ ~done
       /\ \E b \in Times, nr \in BOOLEAN : /\ (nr => b # at) /\ Call(at, b, Sg(at, b), nr)
                                           /\ hist' = Append(hist, [b |-> b, near |-> nr])
       /\ UNCHANGED <<done, at>>
Classes == {{"start", "five", "nogrow"}, {"grow", "five"}, {"keep", "grow", "nogrow", "five"}, {"last", "five", "nogrow"}, {"half", "five"}, {"shrink", "nogrow", "five"}}
Work == (Here \/ (\E k \in Classes : (c.st = "run" /\ (c.ph = "trial" => c.nfe < MaxNfe + 1)) /\ Trial(k)) \/ (\E x \in Times : Accept(x)) \/ Jump) /\ Keep /\ UNCHANGED at
Ret == /\ Keep
       /\ \/ RetOk /\ at' = c.tout
          \/ (RetWork \/ RetZero \/ RetTol) /\ at' = c.x
          \/ (RetFloor \/ RetBad) /\ UNCHANGED at
Finish == c.st = "idle" /\ Len(hist) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<ob, c, hist, at>>
MCSpec == MCInit /\ [][Ask \/ Work \/ Ret \/ Finish]_mvars
FairSpec == MCSpec /\ WF_mvars(Work) /\ SF_mvars(Ret)
Ends == (c.st # "idle") ~> (c.st = "idle")
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
View == <<ob, c, Len(hist), done, at>>
=============================================================================
