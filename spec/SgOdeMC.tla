------------------------------ MODULE SgOdeMC ------------------------------
EXTENDS SgOde, TLC, Json
CONSTANTS N, Emit, Times, Flags, Tols
VARIABLES hist, done
mvars == <<ob, c, hist, done>>
FlagSet == {-7, -2, -1, 0, 1, 2, 3, 6}
FlagGen == {-2, -1, 1, 2}
TolSet == {<<1, 1>>, <<0, 1>>, <<0, 0>>, <<-1, 1>>}
TolOk == {<<1, 1>>}
Sg(a, b) == IF b > a THEN 1 ELSE IF b < a THEN -1 ELSE 0
Keep == UNCHANGED <<hist, done>>
MCInit == hist = <<>> /\ done = FALSE /\ c = Idle /\ \E n \in {0, 1}, tl \in Tols : ob = Obj(n, tl[1], tl[2])
\* a caller: usually continues from where the last call ended (t0 = told), sometimes from somewhere else
Ask == /\ c.st = "idle" /\ Len(hist) < N /\ ~done
       /\ \E a \in Times \cup {ob.told}, b \in Times, f \in Flags \cup {ob.fl} :
             /\ a # NoTime /\ Call(a, b, Sg(a, b), f, FALSE)
             /\ hist' = Append(hist, [a |-> IF a = ob.told THEN "told" ELSE "other", t0 |-> a, b |-> b, f |-> f, keep |-> f = ob.fl]) /\ UNCHANGED done
Vanishes == c.st = "idle" /\ ob.abs = 0 /\ Len(hist) < N /\ ~done /\ Call(0, 1, 1, 1, TRUE) /\ hist' = Append(hist, [a |-> "other", t0 |-> 0, b |-> 1, f |-> 1, keep |-> FALSE]) /\ UNCHANGED done
Work == (EvalHere \/ EvalTry \/ (Running /\ c.fails < 4 /\ EvalRetry) \/ EvalAccept) /\ Keep
Ret == (RetOk \/ RetBad \/ \E t \in Times : RetTol(t) \/ RetSteps(t, TRUE) \/ RetSteps(t, FALSE)) /\ Keep
Finish == c.st = "idle" /\ Len(hist) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<ob, c, hist>>
MCSpec == MCInit /\ [][Ask \/ Vanishes \/ Work \/ Ret \/ Finish]_mvars
FairSpec == MCSpec /\ WF_mvars(Work) /\ WF_mvars(Ret)
\* every call ends
Ends == (c.st # "idle") ~> (c.st = "idle")
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
View == <<ob, c, Len(hist), done>>
Remembered == (c.st = "idle" /\ ob.fl = 2 /\ Len(hist) > 0) => ob.told = hist[Len(hist)].b
=============================================================================
