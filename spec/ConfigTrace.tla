---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceIO
VARIABLES root
vars == <<root, l>>
TraceInit == root = [t |-> "missing"] /\ l = 1
TraceNext ==
  \/ IsEvent("Load") /\ root' = Ev.root
  \* rc: 0, other or -1 (left by an exception); got: text, number
  \/ IsEvent("Get") /\ UNCHANGED root
       /\ LET v == Lookup(root, Ev.path, Ev.type) IN
            IF v = <<>> THEN Ev.rc \notin {0, -1} ELSE Ev.rc = 0 /\ (IF Ev.type \in {"str", "buf"} THEN Ev.text ELSE Ev.num) = v[1]
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
