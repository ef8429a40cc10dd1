--------------------------- MODULE SurfaceTrace ---------------------------
EXTENDS Surface, TraceIO
vars == <<r, v, l>>
TraceInit == Init /\ l = 1
Same == UNCHANGED <<r, v>>
Flat(g) == <<g[1][1], g[1][2], g[1][3], g[2][1], g[2][2], g[2][3], g[3][1], g[3][2], g[3][3]>>
TraceNext ==
  \/ IsEvent("Start") /\ Start(Ev.r, Ev.v)
  \/ IsEvent("Drag") /\ Same /\ Is(Ev.len, U) /\ Ev.a = Drag(Ev.len)
  \/ IsEvent("DragDate") /\ Same /\ Is(Ev.len, U) /\ Ev.a = Back(Ev.ax, Ev.k, Drag(Ev.len))
  \/ IsEvent("DragPartials") /\ Same /\ Is(Ev.len, U) /\ Ev.a = Drag(Ev.len) /\ Ev.c = Drag(Ev.len) /\ Ev.dv = Flat(DragV(Ev.len)) /\ Ev.dr = Flat(DragR(Ev.len, Ev.g))
  \/ IsEvent("Light") /\ Same /\ LET d == Sub(r, Ev.s) IN Is(Ev.len, d) /\ Ev.a = [i \in 1..3 |-> Ev.sg * Light(d)[i]] /\ (Ev.par = 1 => (Ev.c = Light(d) /\ Ev.dr = [i \in 1..9 |-> Ev.sg * Flat(LightR(d, Ev.len))[i]]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
