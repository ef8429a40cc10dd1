----------------------------- MODULE RinexTrace -----------------------------
EXTENDS RinexHeader, RinexData, BeaconTable, TraceIO
VARIABLES H, D, pos, up, cur
vars == <<H, D, pos, up, cur, l>>
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, t) == y - t <= x /\ x <= y + t
\* raw field (h + l/1000) divided by the factor f of its type, reported as hi + lo/1000000
Near(e, v, f) ==
  IF v.s = "m" THEN e.s = "m"
  ELSE LET hi == v.h \div f lo == (((v.h % f) * 1000 + v.l) * 1000) \div f IN
       /\ e.s = v.s
       /\ \/ (e.h = hi /\ Abs(e.l - lo) <= 2)
          \/ (e.h = hi + 1 /\ e.l + 1000000 - lo <= 2) \/ (e.h = hi - 1 /\ lo + 1000000 - e.l <= 2)
Value(e, v, f) == Near(e, v, f) /\ e.a = v.a /\ e.b = v.b
Block(E, obs) == Len(E) = Len(obs) /\ \A i \in 1..Len(obs) :
                   /\ E[i].id = obs[i].id /\ Len(E[i].vs) = Len(obs[i].vs)
                   /\ \A j \in 1..Len(obs[i].vs) : Value(E[i].vs[j], obs[i].vs[j], H.sf[j])
Epoch(L) == /\ Ev.d = L.d /\ Ev.sec = L.sec /\ Ev.ns = L.ns /\ Ev.flag = L.flag /\ Ev.n = L.n /\ Ev.cf = L.cf
            /\ Ev.offp = L.offp /\ (L.offp = 1 => Close(Ev.off, L.off, 1))
Station(e, b) == e = b
TraceInit == H = H0 /\ D = <<>> /\ pos = 1 /\ up = FALSE /\ cur = <<>> /\ l = 1
Idle == UNCHANGED <<H, D, pos, up, cur>>
\* ---- lookups in the header's beacon list
FNear(h, x, f) == \/ (h = f[1] /\ Abs(x - f[2]) <= 8)
                  \/ (h = f[1] + 1 /\ x + 1048576 - f[2] <= 8) \/ (h = f[1] - 1 /\ f[2] + 1048576 - x <= 8)
Answer(S) == IF S = {} THEN {""} ELSE S
Lookup ==
  \/ IsEvent("ByCode") /\ Idle /\ Ev.r \in Answer(ByCode(H.st, Ev.q))
  \/ IsEvent("ById") /\ Idle /\ Ev.r \in Answer(ById(H.st, Ev.q))
  \/ IsEvent("Station") /\ Idle /\ Ev.ix \in Place(H.st, Ev.q)
  \/ IsEvent("Shift") /\ Idle /\ (IF Shift(H.st, Ev.q) = {} THEN Ev.rc # 0 ELSE Ev.rc = 0 /\ Ev.k \in Shift(H.st, Ev.q))
  \/ IsEvent("Code") /\ Idle /\ Ev.ix \in In(H.obs, Ev.q)
  \/ IsEvent("Type") /\ Idle /\ Ev.r = Generation(Ev.q)
  \/ IsEvent("Freq") /\ Idle /\ FNear(Ev.h1, Ev.l1, Frequency(1, Ev.k)) /\ FNear(Ev.h2, Ev.l2, Frequency(2, Ev.k))
  \/ IsEvent("InBlock") /\ Idle /\ (IF ~up THEN TRUE ELSE Ev.ix \in In([i \in 1..Len(cur.obs) |-> cur.obs[i].id], Ev.q))
TraceNext ==
  \/ IsEvent("File") /\ H' = Header(Ev.top, Ev.head) /\ D' = Ev.data /\ pos' = 1 /\ up' = FALSE /\ cur' = <<>>
  \/ IsEvent("Open") /\ UNCHANGED <<H, D, pos, cur>> /\ up' = (Ev.rc = 0)
       /\ (Ev.rc = 0) = (H.s = "ok")
       /\ (Ev.rc = 0 => /\ Ev.obs = H.obs /\ Ev.st = H.st /\ Ev.rcv = H.rcv /\ Close(Ev.off, H.off, 1)
                        /\ (H.first # <<>> => Ev.first = H.first) /\ (H.refdate # <<>> => Ev.refdate = H.refdate))
  \/ IsEvent("Next") /\ UNCHANGED <<H, D>>
       /\ (IF ~up THEN UNCHANGED <<pos, up, cur>> ELSE
           LET b == NextBlock(D, Len(H.obs), pos) IN
           /\ pos' = b.pos /\ up' = (b.res # "err")
           /\ (CASE b.res = "eof" -> Ev.rc = -1 /\ UNCHANGED cur
                 [] b.res = "err" -> Ev.rc \notin {0, -1} /\ UNCHANGED cur
                 [] b.res = "blk" -> Ev.rc = 0 /\ cur' = [ep |-> D[pos], obs |-> b.obs] /\ Epoch(D[pos]) /\ Block(Ev.obs, b.obs)))
  \* the epoch of the current block corrected for the receiver clock, and that of the second frequency (ns after the epoch)
  \/ IsEvent("Corr") /\ Idle
       /\ (up =>                                                      \* after an error the file is not positioned at a block
          LET o == IF H.rcv = 1 \/ cur.ep.offp = 0 THEN 0 ELSE cur.ep.off IN
          /\ Ev.t0 = 0 /\ Close(Ev.t1, o, 1) /\ Close(Ev.t2, o, 1) /\ Close(Ev.tl2, o + H.off, 2))
  \/ Lookup
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
