--------------------------- MODULE IcgemHeaderMC ---------------------------
EXTENDS IcgemHeader, TLC, Json
CONSTANTS N, Emit
VARIABLES hist, done
mvars == <<h, pos, hist, done>>
Alphabet == {[k |-> "gm", v |-> 3986, q |-> "ok"], [k |-> "gm", v |-> 4000, q |-> "ok"], [k |-> "gm", v |-> 0, q |-> "bad"],
             [k |-> "re", v |-> 6378, q |-> "ok"], [k |-> "re", v |-> 0, q |-> "bad"], [k |-> "re", v |-> 0, q |-> "empty"],
             [k |-> "deg", v |-> 2, q |-> "ok"], [k |-> "deg", v |-> 3, q |-> "ok"], [k |-> "deg", v |-> 0, q |-> "bad"],
             [k |-> "str", v |-> 1, q |-> "ok", w |-> "errors", t |-> "no"], [k |-> "str", v |-> 1, q |-> "ok", w |-> "modelname", t |-> "no"],
             [k |-> "str", v |-> 1, q |-> "empty", w |-> "modelname", t |-> ""],
             [k |-> "norm", v |-> 1, q |-> "ok"], [k |-> "norm", v |-> 0, q |-> "ok"],
             [k |-> "text", v |-> 0, q |-> "ok"], [k |-> "text", v |-> 1, q |-> "ok"]}
End == [k |-> "end", v |-> 0, q |-> "ok"]
MCInit == HInit /\ hist = <<>> /\ done = FALSE
Step == /\ ~done /\ Len(hist) < N
        /\ \E L \in Alphabet \cup {End} : h' = HStep(h, L) /\ pos' = pos + 1 /\ hist' = Append(hist, L) /\ done' = FALSE
Stop == ~done /\ (Len(hist) = N \/ h.st = "ok") /\ done' = TRUE /\ h' = HEof(h) /\ UNCHANGED <<pos, hist>>
MCNext == Step \/ Stop
MCSpec == MCInit /\ [][MCNext]_mvars
\* the folded form used on recorded headers agrees with the stepwise machine
FoldAgrees == done => HeaderOf(hist) = h
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
\* order independence of lines of different keywords
Commutes == \A a, b \in Alphabet : (a.k # b.k /\ h.st = "run") => HStep(HStep(h, a), b).st = HStep(HStep(h, b), a).st
               /\ (HStep(HStep(h, a), b).st = "run" => HStep(HStep(h, a), b) = HStep(HStep(h, b), a))
=============================================================================
