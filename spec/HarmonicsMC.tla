---------------------------- MODULE HarmonicsMC ----------------------------
EXTENDS Harmonics, Json
CONSTANTS N, Emit, Vals
VARIABLES hist, done
mvars == <<o, hist, done>>
H(op, a) == done' = FALSE /\ hist' = Append(hist, [op |-> op, a |-> a])
MCInit == HInit /\ hist = <<>> /\ done = FALSE
Clean(x) == \A i \in DOMAIN o[x].c : o[x].c[i].k = 0     \* each cell denormalised at most once between writes, so that Seen is an integer
Step == /\ Len(hist) < N
        /\ \E x \in Slots :
             \/ \E d \in 0..MaxDeg : Make(x, d) /\ H("Make", <<x, d>>)
             \/ HasNorm /\ \E d \in 0..MaxDeg : MakeC(x, d, 3, 5) /\ H("MakeC", <<x, d, 3, 5>>)
             \/ Default(x) /\ H("Default", <<x>>)
             \/ Destroy(x) /\ H("Destroy", <<x>>)
             \/ \E y \in Slots : MoveCtor(x, y) /\ H("MoveCtor", <<x, y>>)
             \/ \E y \in Slots : MoveAssign(x, y) /\ H("MoveAssign", <<x, y>>)
             \/ HasNorm /\ \E d \in 0..MaxDeg : Resize(x, d) /\ H("Resize", <<x, d>>)
             \/ \E i \in Idx(MaxDeg), v \in Vals : WriteC(x, i, v) /\ H("WriteC", <<x, i[1], i[2], v>>)
             \/ \E i \in SIdx(MaxDeg), v \in Vals : WriteS(x, i, v) /\ H("WriteS", <<x, i[1], i[2], v>>)
             \/ HasNorm /\ \E b \in 0..1 : SetNorm(x, b) /\ H("SetNorm", <<x, b>>)
             \/ HasNorm /\ SetConst(x, 7, 9) /\ H("SetConst", <<x, 7, 9>>)
             \/ Live(x) /\ Clean(x) /\ \E ord \in -1..MaxDeg+1 : Denorm(x, ord) /\ H("Denorm", <<x, ord>>)
Finish == Len(hist) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<o, hist>>
MCSpec == MCInit /\ [][Step \/ Finish]_mvars
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
View == <<o, Len(hist), done>>
AtMostOnce == \A x \in Slots : Live(x) => (\A i \in DOMAIN o[x].c : o[x].c[i].k \in {0, 1}) /\ (\A i \in DOMAIN o[x].s : o[x].s[i].k \in {0, 1})
=============================================================================
