----------------------------- MODULE SgOdeTrace -----------------------------
EXTENDS SgOde, TraceIO
CONSTANT Enforce            \* which of C01, C02, C03 this run decides
On(p) == p \in Enforce
Cls == {Ev.cls[i] : i \in 1..Len(Ev.cls)}
\* C02: where the derivative may be evaluated
Where == On("C02") => /\ Ev.bh = 0 /\ Ev.be = 0
                      /\ c.neg => Ev.bt = 0
TraceInit == SInit /\ l = 1
TraceNext ==
  \/ IsEvent("New")  /\ New(Ev.neq, Ev.rel, Ev.abs)
  \/ IsEvent("Call") /\ Call(Ev.t0, Ev.tout, Ev.sg, Ev.f, Ev.van = 1)
  \/ IsEvent("EvalHere")   /\ EvalHere /\ Where /\ ((On("C01") /\ c'.ph = "started") => Ev.at0 = 1)
  \/ IsEvent("EvalTry")    /\ EvalTry /\ Where /\ (On("C03") => Cls \cap TryClasses # {})
  \/ IsEvent("EvalRetry")  /\ EvalRetry /\ Where /\ (On("C03") => Cls \cap RetryClasses # {})
  \/ IsEvent("EvalAccept") /\ EvalAccept /\ Where
  \/ /\ IsEvent("Return")
     /\ \/ /\ Ev.rc = 0 /\ Ev.flag = 2 /\ RetOk
           /\ Ev.t = c.tout /\ Ev.finite = 1
           /\ On("C01") => Ev.hint \in {"any", "ok"} /\ Ev.tolsame = 1
           /\ On("C02") => (Ev.hasx = 1 => Ev.q <= Ev.qmax)
           /\ On("C03") => Ev.n <= Ev.nmax
        \/ /\ Ev.rc # 0 /\ Ev.flag = SS * 3 /\ RetTol(Ev.t)
           /\ On("C01") => /\ Ev.hint \in {"any", "tol"}
                           \* the tolerances grow unless it was the step that became too small to matter
                           /\ (Ev.tolup = 1 \/ (Ev.tolsame = 1 /\ Ev.hint = "any" /\ ~(c.rst /\ c.steps = 0 /\ c.ph = "begin")))
                           /\ (IF c.rst /\ c.steps = 0 THEN Ev.tsame = 1 ELSE Ev.atxs = 1)
           /\ Ev.finite = 1
        \/ /\ Ev.rc # 0 /\ Abs(Ev.flag) \in {4, 5} /\ RetSteps(Ev.t, Abs(Ev.flag) = 5) /\ Ev.flag = ob'.fl
           /\ On("C01") => /\ Ev.atxs = 1 /\ Ev.tolsame = 1
                           /\ Ev.hint \in {"any", IF Abs(Ev.flag) = 5 THEN "stiff" ELSE "many"}
           /\ On("C02") => (Ev.hasx = 1 => Ev.q <= Ev.qmax)
        \/ /\ Ev.rc # 0 /\ Ev.flag = 6 /\ RetBad
           /\ On("C01") => Ev.n = 0 /\ Ev.tsame = 1 /\ Ev.tolsame = 1 /\ Ev.touched = 0
TraceSpec == TraceInit /\ [][TraceNext]_<<ob, c, l>>
=============================================================================
