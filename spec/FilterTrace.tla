----------------------------- MODULE FilterTrace -----------------------------
EXTENDS Filter, TraceIO
VARIABLES F, T     \* T: epoch of the estimates, -1 before the first update
vars == <<F, T, l>>
TraceInit == F = <<>> /\ T = -1 /\ l = 1
\* every operation reports the whole filter, as multiples of 1 / d
Shown == Ev.d = F'.d /\ Ev.x = F'.x /\ Ev.P = F'.P /\ Ev.tt = T' /\ Ev.same = 1
Keep == UNCHANGED T
Vec(e, n) == [i \in 1..n |-> LET S == {k \in 1..Len(e) : e[k][1] = i} IN IF S = {} THEN 0 ELSE e[CHOOSE k \in S : TRUE][2]]
Phi(n, e) == [i \in 1..n |-> [j \in 1..n |-> LET S == {k \in 1..Len(e) : e[k][1] = i /\ e[k][2] = j} IN IF S # {} THEN e[CHOOSE k \in S : TRUE][3] ELSE IF i = j THEN 1 ELSE 0]]
TraceNext ==
  \/ IsEvent("New") /\ LET L == [np |-> Ev.np, lin |-> Ev.lin, ns |-> Ev.ns, n |-> Ev.n, tropo |-> Ev.tropo, rf |-> Ev.rf, drag |-> Ev.drag] IN
       /\ Layout(L) /\ F' = Fresh(L) /\ T' = -1 /\ Shown
  \/ IsEvent("SetTropo") /\ F' = SetTropo(F, Ev.b, Ev.v) /\ Keep /\ Shown
  \/ IsEvent("SetTropoSigma") /\ F' = SetTropoSigma(F, Ev.b, Ev.v) /\ Keep /\ Shown
  \/ IsEvent("SetRf") /\ F' = SetRf(F, Ev.b, Ev.v, Ev.w) /\ Keep /\ Shown
  \/ IsEvent("SetRfSigma") /\ F' = SetRfSigma(F, Ev.b, Ev.v, Ev.w) /\ Keep /\ Shown
  \/ IsEvent("SetDrag") /\ F' = SetDrag(F, Ev.v) /\ Keep /\ Shown
  \/ IsEvent("SetDragSigma") /\ F' = SetDragSigma(F, Ev.v) /\ Keep /\ Shown
  \/ IsEvent("Time") /\ F' = Noise(Time(F, Ev.xk, Phi(F.L.n, Ev.phi)), Vec(Ev.q, F.L.n)) /\ T' = Ev.t /\ Shown
  \/ IsEvent("Start") /\ F' = Start(F, Ev.xk, Ev.p) /\ T' = Ev.t /\ Shown
  \/ IsEvent("Obs") /\ F' = Obs(F, Ev.z, Ev.g, Ev.s * Ev.s, Vec(Ev.H, F.L.n)) /\ Keep /\ Shown
  \* what the accessors say: beacon b after Ev.dt seconds from the reference epoch
  \/ IsEvent("Get") /\ UNCHANGED <<F, T>> /\ Ev.d = F.d /\ Ev.tropo = F.x[F.L.tropo[Ev.b]]
       /\ Ev.rf = (IF F.L.lin THEN F.x[F.L.rf[Ev.b]] + Ev.dt * F.x[F.L.rf[Ev.b] + 1] ELSE F.x[F.L.rf[Ev.b]])
       /\ (F.L.drag > 0 => Ev.drag = F.x[F.L.drag])
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
