----------------------------- MODULE Harmonics -----------------------------
(* The container of spherical-harmonic coefficients (property C07): a small   *)
(* heap of containers with construction, resize, moves, destruction, cell     *)
(* writes and denormalisation.                                                *)
(* A cell is [v, k]: v the integer written to it (Unk: never written since    *)
(* the cells became available), k how often the normalisation factor of its   *)
(* degree and order has been applied.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, MaxDeg, HasNorm      \* HasNorm: the container records whether it is normalised (src/), or not (var/icgem)
Unk == -99
Dead == [st |-> "dead"]
Idx(d) == {<<n, m>> \in (0..d) \X (0..d) : m <= n}
SIdx(d) == {<<n, m>> \in Idx(d) : m >= 1}
Fresh(d, gm, re) == [st |-> "live", deg |-> d, gm |-> gm, re |-> re, norm |-> 1,
                     c |-> [i \in Idx(d) |-> [v |-> Unk, k |-> 0]], s |-> [i \in SIdx(d) |-> [v |-> Unk, k |-> 0]]]
Hollow == [st |-> "hollow"]          \* default constructed or moved from: may be assigned to, resized, destroyed
VARIABLE o
HInit == o = [x \in Slots |-> Dead]
Live(x) == o[x].st = "live"
Alive(x) == o[x].st # "dead"

Make(x, d)          == ~Alive(x) /\ o' = [o EXCEPT ![x] = Fresh(d, 0, 0)]
MakeC(x, d, gm, re) == ~Alive(x) /\ o' = [o EXCEPT ![x] = Fresh(d, gm, re)]
Default(x)          == ~Alive(x) /\ o' = [o EXCEPT ![x] = Hollow]
Destroy(x)          == Alive(x) /\ o' = [o EXCEPT ![x] = Dead]
MoveCtor(x, y)      == ~Alive(x) /\ Alive(y) /\ o' = [o EXCEPT ![x] = o[y], ![y] = Hollow]
MoveAssign(x, y)    == Alive(x) /\ Alive(y) /\ o' = IF x = y THEN o ELSE [o EXCEPT ![x] = o[y], ![y] = Hollow]
\* a resize to the current degree keeps everything; any other one keeps constants and makes all cells of the new degree usable
Resize(x, d)        == Alive(x) /\ LET f == Fresh(d, 0, 0)
                                   IN o' = [o EXCEPT ![x] = IF o[x].st = "hollow" THEN [f EXCEPT !.gm = Unk, !.re = Unk, !.norm = Unk]
                                                            ELSE IF o[x].deg = d THEN o[x] ELSE [f EXCEPT !.gm = o[x].gm, !.re = o[x].re, !.norm = o[x].norm]]
WriteC(x, i, v)     == Live(x) /\ i \in DOMAIN o[x].c /\ o' = [o EXCEPT ![x].c[i] = [v |-> v, k |-> 0]]
WriteS(x, i, v)     == Live(x) /\ i \in DOMAIN o[x].s /\ o' = [o EXCEPT ![x].s[i] = [v |-> v, k |-> 0]]
SetNorm(x, b)       == Live(x) /\ o' = [o EXCEPT ![x].norm = b]
SetConst(x, gm, re) == Live(x) /\ o' = [o EXCEPT ![x].gm = gm, ![x].re = re]
\* ord: -1 means all orders. Returns an error (and does nothing) when ord exceeds the degree; a no-op when already done
DenormErr(x, ord)   == IF o[x].norm = 0 THEN FALSE ELSE ord > o[x].deg
Denorm(x, ord)      == /\ Live(x) /\ o[x].norm # Unk
                       /\ LET d == o[x].deg IN
                          LET e == IF ord < 0 THEN d ELSE ord IN
                          LET hit(i) == i[1] >= 1 /\ i[2] <= e IN
                          o' = IF o[x].norm = 0 \/ e > d THEN o
                               ELSE [o EXCEPT ![x].norm = IF HasNorm THEN 0 ELSE 1,
                                              ![x].c = [i \in DOMAIN @ |-> IF hit(i) THEN [@[i] EXCEPT !.k = @ + 1] ELSE @[i]],
                                              ![x].s = [i \in DOMAIN @ |-> IF hit(i) THEN [@[i] EXCEPT !.k = @ + 1] ELSE @[i]]]
\* ---- what a caller sees of a cell: sign(c) * c^2 * (n+m)!/(n-m)!, an integer for k = 0 and k = 1
RECURSIVE Ratio(_, _)
Ratio(n, m) == IF m = 0 THEN 1 ELSE Ratio(n, m - 1) * (n + m) * (n - m + 1)
Sgn(v) == IF v < 0 THEN -1 ELSE 1
Square(n, m) == (2 * n + 1) * (IF m = 0 THEN 1 ELSE 2)
Seen(cell, i) == IF cell.k = 0 THEN Sgn(cell.v) * cell.v * cell.v * Ratio(i[1], i[2])
                 ELSE Sgn(cell.v) * cell.v * cell.v * Square(i[1], i[2])
\* ---- design properties
HTypeOK == \A x \in Slots : o[x].st \in {"dead", "hollow", "live"} /\ (Live(x) => o[x].deg \in 0..MaxDeg /\ DOMAIN o[x].c = Idx(o[x].deg) /\ DOMAIN o[x].s = SIdx(o[x].deg))
\* the packed layout gives every cell its own place: C(n,m) -> (n, m), S(n,m) -> (d-n, d-n+m)
CellsDistinct == \A d \in 0..MaxDeg : LET P == {<<i[1], i[2]>> : i \in Idx(d)}  Q == {<<d - i[1], d - i[1] + i[2]>> : i \in SIdx(d)}
                 IN P \cap Q = {} /\ Cardinality(Q) = Cardinality(SIdx(d)) /\ \A q \in Q : q[1] \in 0..d /\ q[2] \in 0..d
\* a write changes one cell of one container
WriteLocal == [][\A x \in Slots : (Live(x) /\ o'[x].st = "live" /\ o'[x] # o[x] /\ o'[x].deg = o[x].deg /\ o'[x].norm = o[x].norm /\ DOMAIN o[x].c = DOMAIN o'[x].c
                     /\ \A y \in Slots \ {x} : o'[y] = o[y])
                  => Cardinality({i \in DOMAIN o[x].c : o[x].c[i].v # o'[x].c[i].v}) + Cardinality({i \in DOMAIN o[x].s : o[x].s[i].v # o'[x].s[i].v}) <= 1]_o
=============================================================================
