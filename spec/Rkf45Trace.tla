---------------------------- MODULE Rkf45Trace ----------------------------
EXTENDS Rkf45, TraceIO
Cls == {Ev.cls[i] : i \in 1..Len(Ev.cls)}
TraceInit == RInit /\ l = 1
TraceNext ==
  \/ IsEvent("New")    /\ New(Ev.neq, Ev.rel, Ev.abs)
  \/ IsEvent("Call")   /\ Call(Ev.t0, Ev.tout, Ev.sg, Ev.near = 1)
  \/ IsEvent("Here")   /\ Here /\ Ev.at0 = 1
  \/ IsEvent("Trial")  /\ Ev.absc = 1 /\ Ev.beyond = 0 /\ Trial(Cls)
  \/ IsEvent("Accept") /\ Accept(Ev.x)
  \/ IsEvent("Jump")   /\ Jump /\ Ev.x = c.tout
  \/ /\ IsEvent("Return")
     /\ \/ RetOk /\ Ev.flag = 2 /\ Ev.t = c.tout /\ Ev.finite = 1
           /\ (Ev.hasx = 1 => Ev.q <= Ev.qmax) /\ Ev.n <= Ev.nmax /\ Ev.hint \in {"any", "ok"}
        \/ Ev.flag = 3 /\ RetFloor /\ Ev.n = 0 /\ Ev.tsame = 1 /\ Ev.ysame = 1 /\ Ev.hint \in {"any", "floor"}
        \/ Ev.flag = 4 /\ RetWork /\ Ev.t = c.x /\ Ev.hint \in {"any", "work"} /\ (Ev.hasx = 1 => Ev.q <= Ev.qmax)
        \/ Ev.flag = 5 /\ RetZero /\ Ev.t = c.x /\ Ev.hint \in {"any", "zero"}
        \/ Ev.flag = 6 /\ RetTol /\ Ev.t = c.x /\ Ev.hint \in {"any", "tol"}
        \/ RetBad /\ Ev.flag = c.fl /\ Ev.n = 0 /\ Ev.tsame = 1 /\ Ev.ysame = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<ob, c, l>>
=============================================================================
