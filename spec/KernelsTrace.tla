---------------------------- MODULE KernelsTrace ----------------------------
EXTENDS Kernels, TraceIO
TraceInit == files = <<>> /\ pool = <<>> /\ l = 1
Now == pool' = Ev.pool /\ UNCHANGED files
TraceNext ==
  \/ IsEvent("Files") /\ files' = Ev.files /\ pool' = <<>>
  \/ IsEvent("load") /\ pool' = Load(pool, Ev.f) /\ Now
  \/ IsEvent("unload") /\ pool' = Unload(pool, Ev.f) /\ Now           \* by the toolkit itself
  \/ IsEvent("clear") /\ pool' = <<>> /\ Now
  \/ IsEvent("request") /\ Ev.rc = 0 /\ pool' = Request(pool, Ev.f) /\ Now
  \* the constants of Sun and Moon, with (f > 0) or without a file named
  \/ IsEvent("gm") /\ Ev.rc = 0 /\ pool' = (IF Ev.f = 0 THEN pool ELSE Request(pool, Ev.f)) /\ Now
       /\ Ev.sun = Gm(pool') /\ Ev.moon = Gm(pool') + 1
  \* positions: the body asked for, seen from the Earth's centre (399), in J2000, geometric, at the epoch (1/8 days from J2000)
  \/ IsEvent("pos") /\ UNCHANGED <<files, pool>> /\ Ev.rc = 0 /\ Ev.n = 1
       /\ Ev.target = (IF Ev.body = "sun" THEN 10 ELSE 301) /\ Ev.obs = 399 /\ Ev.ref = "J2000" /\ Ev.corr = "NONE" /\ Ev.sys = "JDTDT/ET" /\ Ev.et8 = Ev.t8 /\ Ev.xyz = <<1, 2, 3>>
TraceSpec == TraceInit /\ [][TraceNext]_<<files, pool, l>>
=============================================================================
