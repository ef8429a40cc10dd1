--------------------------- MODULE ExpAtmTrace ---------------------------
EXTENDS ExpAtm, TraceIO
VARIABLES x
vars == <<x, l>>
TraceInit == x = 0 /\ l = 1
\* km: whole kilometres of the altitude (decides the layer), m: altitude in metres, ln: - 10^5 ln density of the code
TraceNext == IsEvent("Density") /\ UNCHANGED x /\ Abs(Ev.ln - Depth(Find(1, 1000 * Ev.km), Ev.m)) <= 3
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
