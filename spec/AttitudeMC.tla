----------------------------- MODULE AttitudeMC -----------------------------
EXTENDS Attitude, TLC, Json
CONSTANTS N, W, Q, T, Emit
VARIABLES F, ph, buf, pos, top, last, hist
vars == <<F, ph, buf, pos, top, last, hist>>
LastT == LET R == Readable(F) IN IF R = <<>> THEN 1 ELSE R[Len(R)].t
MCInit == F = <<>> /\ ph = "make" /\ buf = <<>> /\ pos = 1 /\ top = -1 /\ last = [t |-> 0, res |-> 0, allowed |-> {0}] /\ hist = <<>>
Make == ph = "make" /\ Len(F) < N /\ UNCHANGED <<ph, buf, pos, top, last, hist>>
        /\ \/ \E t \in LastT..T : F' = Append(F, [k |-> "rec", t |-> t])
           \/ \E k \in {"skip", "bad"} : F' = Append(F, [k |-> k, t |-> 0])
Open == ph = "make" /\ Opens(F) /\ ph' = "ask" /\ UNCHANGED <<F, top, last, hist>>
        /\ LET a == NextRec(F, 1) b == NextRec(F, a.p) IN
             a.ok /\ b.ok /\ pos' = b.p /\ buf' = [i \in 1..W |-> IF i = W THEN 2 ELSE 1]
Ask == ph = "ask" /\ Len(hist) < Q /\ UNCHANGED <<F, ph>>
       /\ \E t \in 0..(T + 1) :
            LET h == Hunt(F, buf, pos, t) IN
            /\ buf' = h.buf /\ pos' = h.pos /\ top' = (IF t > top THEN t ELSE top)
            /\ last' = [t |-> t, res |-> h.res, allowed |-> Allowed(F, top, t)] /\ hist' = Append(hist, t)
MCSpec == MCInit /\ [][Make \/ Open \/ Ask]_vars
Right == last.res \in last.allowed
\* the window always holds consecutive records (the first one repeated before it is full)
Window == ph = "ask" => /\ buf[W] = Num(F, pos)
                        /\ \A i \in 1..(W - 1) : buf[i + 1] = buf[i] + 1 \/ (buf[i] = 1 /\ buf[i + 1] = 1)
EmitBeh == (Emit /\ ph = "ask" /\ Len(hist) = Q) => PrintT("BEH " \o ToJson([F |-> F, q |-> hist]))
=============================================================================
