-------------------------------- MODULE Rkf45 --------------------------------
(* The Runge-Kutta-Fehlberg integrator as its callers and its right-hand side *)
(* see it (property C04). Times are identifiers. The caller can only build    *)
(* the object and call solve(): outcomes 5, 6 and 8 ask for a change that     *)
(* cannot be made from outside, so they are final.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxNfe             \* evaluations after which a further trial is not started (3000)
VARIABLES ob, c
rvars == <<ob, c>>
\* rel: -1 negative, 0 below the floor, 1 usable; abs: -1, 0, 1
Obj(n, r, a) == [neq |-> n, rel |-> r, abs |-> a, fl |-> 1, calls |-> 0]
Idle == [st |-> "idle"]
RInit == ob = Obj(1, 1, 1) /\ c = Idle
New(n, r, a) == c.st = "idle" /\ ob' = Obj(n, r, a) /\ UNCHANGED c

Valid(sg) == ob.neq >= 1 /\ ob.rel >= 0 /\ ob.abs >= 0 /\ (sg # 0 \/ ob.fl = 3)
Final == ob.fl \in {5, 6, 8}
\* near: the output point is within round-off of the starting point
Call(t0, tout, sg, near) ==
  /\ c.st = "idle"
  /\ c' = IF ~Valid(sg) THEN [st |-> "refuse", t0 |-> t0, fl |-> 8]
          ELSE IF Final THEN [st |-> "refuse", t0 |-> t0, fl |-> ob.fl]
          ELSE IF ob.rel = 0 THEN [st |-> "floor", t0 |-> t0]
          ELSE [st |-> "run", t0 |-> t0, tout |-> tout, x |-> t0, sg |-> sg, near |-> near, ph |-> "begin", nfe |-> 0, failed |-> FALSE, first |-> TRUE]
  /\ ob' = [ob EXCEPT !.calls = @ + 1]
Running == c.st = "run"
Here == Running /\ c.ph = "begin" /\ c' = [c EXCEPT !.ph = "here", !.nfe = 1] /\ UNCHANGED ob
\* one trial step: the five evaluations of a Fehlberg step; goal: it ends exactly at the output point
\* step classes: start = the first-step rule; grow = 0.9..5 of the last step; keep = 0.9..1; last = to the output point; half = half the way to it; shrink = 0.1..0.9 of the rejected step
Trial(cls) ==
  /\ Running /\ c.nfe <= MaxNfe
  /\ \/ c.ph = "here" /\ c.sg # 0 /\ ~c.near /\ (ob.calls = 1 => cls \cap {"start"} # {})
        /\ c' = [c EXCEPT !.ph = "trial", !.nfe = @ + 5, !.failed = FALSE, !.first = TRUE]
     \/ c.ph = "acc" /\ cls \cap ({"last", "half"} \cup (IF c.failed THEN {"keep"} ELSE {"grow"})) # {}
        /\ (c.failed => cls \cap {"nogrow"} # {}) /\ cls \cap {"five"} # {}
        /\ c' = [c EXCEPT !.ph = "trial", !.nfe = @ + 5, !.failed = FALSE, !.first = FALSE]
     \/ c.ph = "trial" /\ cls \cap {"shrink"} # {}
        /\ c' = [c EXCEPT !.nfe = @ + 5, !.failed = TRUE]
  /\ UNCHANGED ob
Accept(x) == Running /\ c.ph = "trial" /\ c' = [c EXCEPT !.ph = "acc", !.nfe = @ + 1, !.x = x] /\ UNCHANGED ob
\* the extrapolated point right at the output point
Jump == Running /\ c.ph = "here" /\ c.near /\ c' = [c EXCEPT !.ph = "end", !.nfe = @ + 1] /\ UNCHANGED ob

Fin(f) == ob' = [ob EXCEPT !.fl = f] /\ c' = Idle
RetOk == /\ Running
         /\ \/ c.ph = "acc" /\ c.x = c.tout
            \/ c.ph = "end"
            \/ c.ph = "here" /\ c.sg = 0
         /\ Fin(2)
RetFloor == c.st = "floor" /\ ob' = [ob EXCEPT !.fl = 3, !.rel = 1] /\ c' = Idle
RetWork == Running /\ c.ph \in {"trial", "acc"} /\ c.nfe > MaxNfe /\ Fin(4)
RetZero == Running /\ c.ph = "trial" /\ ob.abs = 0 /\ Fin(5)
RetTol == Running /\ c.ph = "trial" /\ Fin(6)
RetBad == c.st = "refuse" /\ Fin(c.fl)
\* ---- design properties
RTypeOK == ob.fl \in {1, 2, 3, 4, 5, 6, 8} /\ c.st \in {"idle", "run", "refuse", "floor"}
WorkBound == Running => c.nfe <= MaxNfe + 6
FinalIsFinal == [][(c.st = "idle" /\ Final /\ ob'.calls > ob.calls) => c'.st = "refuse"]_rvars
NoEvalWhenRefused == [][c.st = "refuse" => c'.st = "idle"]_rvars
=============================================================================
