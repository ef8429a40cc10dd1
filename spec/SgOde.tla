------------------------------- MODULE SgOde -------------------------------
(* The multistep (Shampine-Gordon) integrator as its callers and its          *)
(* right-hand side see it (properties C01, C02, C03): the call protocol of    *)
(* the driver and, inside a call, the protocol of derivative evaluations.     *)
(* Times are identifiers: only equality and the direction matter here.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSteps,          \* accepted steps allowed in one call (500)
          ErrFactor          \* error at an output point, in units of the tolerance
VARIABLES ob,                \* the object: neq, signs of the tolerances, what it remembers between calls
          c                  \* the call in progress
svars == <<ob, c>>
Abs(n) == IF n < 0 THEN -n ELSE n
NoTime == -1
Obj(n, r, a) == [neq |-> n, rel |-> r, abs |-> a, told |-> NoTime, neg |-> FALSE, dir |-> 0, free |-> TRUE, pend |-> FALSE, fl |-> 1]
Idle == [st |-> "idle"]
SInit == ob = Obj(1, 1, 1) /\ c = Idle

New(n, r, a) == c.st = "idle" /\ ob' = Obj(n, r, a) /\ UNCHANGED c

\* ---- validity of a request; van: some component is zero and the absolute tolerance is too
Restarts(sg, f) == Abs(f) = 1 \/ ob.neg \/ ob.dir * sg <= 0
Valid(t0, sg, f, van) == /\ ob.neq >= 1 /\ sg # 0
                    /\ ob.rel >= 0 /\ ob.abs >= 0 /\ ob.rel + ob.abs > 0
                    /\ f # 0 /\ Abs(f) <= 5
                    /\ (Abs(f) = 1 \/ t0 = ob.told)
                    /\ ~(Restarts(sg, f) /\ van)

\* ph: begin, started (derivative at the starting point known), try, acc, extra
Call(t0, tout, sg, f, van) ==
  /\ c.st = "idle"
  /\ c' = IF Valid(t0, sg, f, van)
          THEN [st |-> "run", t0 |-> t0, tout |-> tout, sg |-> sg, neg |-> f < 0, rst |-> Restarts(sg, f) \/ ob.pend, cont |-> ~Restarts(sg, f), ph |-> "begin", steps |-> 0, fails |-> 0,
                clean |-> Restarts(sg, f) \/ ob.pend]            \* clean: since the start there has been no failure
          ELSE [st |-> "refuse", t0 |-> t0]
  /\ ob' = [ob EXCEPT !.fl = f]
Running == c.st = "run"

\* the derivative at the current point: first thing after a (re)start, or the last-step extrapolation in stop-at-output mode
EvalHere == /\ Running
            /\ \/ c.ph = "begin" /\ c.rst /\ c' = [c EXCEPT !.ph = "started"]
               \/ c.ph \in {"begin", "acc"} /\ ~(c.ph = "begin" /\ c.rst) /\ c.neg /\ c' = [c EXCEPT !.ph = "extra"]
            /\ UNCHANGED ob
\* the predicted point of a first attempt
EvalTry == /\ Running /\ c.steps < MaxSteps
           /\ \/ c.ph = "started" \/ (c.ph = "begin" /\ ~c.rst) \/ c.ph = "acc"
           /\ c' = [c EXCEPT !.ph = "try", !.fails = 0] /\ UNCHANGED ob
\* the predicted point of a repeated attempt: the one before was rejected
EvalRetry == /\ Running /\ c.ph = "try"
             /\ c' = [c EXCEPT !.fails = @ + 1, !.clean = FALSE] /\ UNCHANGED ob
\* the corrected point
EvalAccept == /\ Running /\ c.ph = "try"
              /\ c' = [c EXCEPT !.ph = "acc", !.steps = @ + 1, !.fails = 0] /\ UNCHANGED ob
\* step sizes admitted for an attempt, as classes of the ratio to the previous attempted step
\*   start: the whole interval or the tolerance-limited first step; lim: up to the limit of the call
TryClasses == IF c.rst /\ c.cont /\ c.steps = 0 THEN {"any"}   \* a start that was pending: its first step was chosen for the earlier interval
              ELSE IF c.rst /\ c.steps = 0 THEN {"start", "lim"}
              ELSE IF ob.free /\ c.steps = 0 THEN {"any"}      \* after a tolerance error
              ELSE IF c.clean /\ c.steps = 1 THEN {"double", "lim"}
              ELSE {"double", "same", "shrink", "lim"}
RetryClasses == IF c.fails < 3 THEN {"half"} ELSE {"half", "less"}     \* c.fails: failures before this one

SS == IF c.st = "run" /\ c.neg THEN -1 ELSE 1
After(t, neg, fr) == [ob EXCEPT !.pend = FALSE, !.told = t, !.neg = neg, !.dir = IF c.rst THEN c.sg ELSE @, !.free = fr]
RetOk == /\ Running /\ c.ph \in {"begin", "acc", "extra", "started"} /\ (c.ph = "begin" => ~c.rst) /\ (c.ph = "started" => c.neg)
         /\ ob' = [After(c.tout, c.neg, FALSE) EXCEPT !.fl = 2] /\ c' = Idle
RetTol(t) == /\ Running /\ c.ph \in {"begin", "acc", "try"}
             /\ ob' = [After(t, FALSE, TRUE) EXCEPT !.fl = SS * 3, !.pend = c.rst /\ c.ph = "begin"] /\ c' = Idle
RetSteps(t, stiff) == /\ Running /\ c.ph = "acc" /\ c.steps = MaxSteps
                      /\ ob' = [After(t, FALSE, FALSE) EXCEPT !.fl = SS * (IF stiff THEN 5 ELSE 4)] /\ c' = Idle
RetBad == c.st = "refuse" /\ ob' = [ob EXCEPT !.fl = 6] /\ c' = Idle
\* ---- design properties
STypeOK == /\ ob.fl \in -9..9 /\ ob.dir \in {-1, 0, 1} /\ c.st \in {"idle", "run", "refuse"}
           /\ Running => (c.steps \in 0..MaxSteps /\ c.ph \in {"begin", "started", "try", "acc", "extra"})
OneOutcome == c.st = "idle" => Abs(ob.fl) \in {1, 2, 3, 4, 5, 6}
RefusedSilently == [][c.st = "refuse" => (ob'.told = ob.told /\ ob'.dir = ob.dir /\ ob'.neg = ob.neg)]_svars
BudgetHeld == Running => c.steps <= MaxSteps
=============================================================================
