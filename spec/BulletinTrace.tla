--------------------------- MODULE BulletinTrace ----------------------------
EXTENDS Bulletin, TraceIO
VARIABLES world, seed
vars == <<world, seed, l>>
TraceInit == world = {} /\ seed = 0 /\ l = 1
TraceNext ==
  \/ IsEvent("World") /\ world' = {Ev.b[i] : i \in 1..Len(Ev.b)} /\ seed' = Ev.seed
  \* rows of the table written: day, date, fourteen values; rc: 0, 1 or -1 (does not end)
  \/ IsEvent("Fetch") /\ UNCHANGED <<world, seed>>
       /\ IF ~Covered(world, Ev.t - Ev.n, Ev.t + Ev.n) THEN Ev.rc = 1
          ELSE Ev.rc = 0 /\ Whole([i \in 1..Len(Ev.rows) |-> Ev.rows[i][1]], Ev.t - Ev.n, Ev.t + Ev.n)
               /\ \A i \in 1..Len(Ev.rows) : LET r == Ev.rows[i] IN
                    Len(r) = 16 /\ (\E b \in world : Holds(b, r[1])) /\ r[2] = Civil(r[1]) /\ \A k \in 1..14 : r[k + 2] = Value(k, r[1], seed)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
