----------------------------- MODULE ValueHeap -----------------------------
(* Buffer-owning value classes (compact matrices, the EOP table, polynomial     *)
(* models) seen from outside: a few named objects, each dead, hollow (moved     *)
(* from: may be assigned to or destroyed) or live with a shape and one value    *)
(* per cell.  Copies are equal and independent, moves transfer, a write changes *)
(* one cell of one object.                                                      *)
EXTENDS Integers, Sequences
CONSTANTS Slots
Unk == -9999                          \* never written: any value may be read
VARIABLE o
Dead == [st |-> "dead"]
Hollow == [st |-> "hollow"]
Obj(sh, v) == [st |-> "live", sh |-> sh, v |-> v]
VHInit == o = [x \in Slots |-> Dead]
Live(x) == o[x].st = "live"
Alive(x) == o[x].st # "dead"
Same(a, b) == o' = [o EXCEPT ![a] = b]
Make(x, sh, n, v)   == ~Alive(x) /\ Same(x, Obj(sh, [i \in 1..n |-> v]))
Write(x, c, v)      == Live(x) /\ c \in DOMAIN o[x].v /\ o' = [o EXCEPT ![x].v[c] = v]
WriteAll(x, f)      == Live(x) /\ DOMAIN f = DOMAIN o[x].v /\ o' = [o EXCEPT ![x].v = f]
Fill(x, v)          == Live(x) /\ o' = [o EXCEPT ![x].v = [i \in DOMAIN @ |-> v]]
Reshape(x, sh, f)   == Alive(x) /\ Same(x, Obj(sh, f))
CopyCtor(x, y)      == ~Alive(x) /\ Live(y) /\ Same(x, o[y])
CopyAssign(x, y)    == Alive(x) /\ (x = y \/ Live(y)) /\ Same(x, o[y])
MoveCtor(x, y)      == ~Alive(x) /\ Alive(y) /\ o' = [o EXCEPT ![x] = o[y], ![y] = Hollow]
MoveAssign(x, y)    == Alive(x) /\ Alive(y) /\ o' = IF x = y THEN o ELSE [o EXCEPT ![x] = o[y], ![y] = Hollow]
Destroy(x)          == Alive(x) /\ Same(x, Dead)
=============================================================================
