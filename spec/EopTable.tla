------------------------------ MODULE EopTable ------------------------------
(* Buffer-owning tables that can be resized (Earth-orientation table,           *)
(* polynomial models).  sh = <<entries>>; every entry has W values.  lo[x] is   *)
(* the capacity a user may count on: shrinking and growing again up to lo keeps *)
(* the entries present throughout; beyond it nothing is promised.               *)
EXTENDS ValueHeap
CONSTANT W
VARIABLE lo
SInit == VHInit /\ lo = [x \in Slots |-> 0]
Cap(x, n) == lo' = [lo EXCEPT ![x] = n]
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Size(x) == IF Live(x) THEN o[x].sh[1] ELSE 0
SMake(x, n)        == Make(x, <<n>>, n * W, Unk) /\ Cap(x, n)
SWrite(x, c, v)    == Write(x, c, v) /\ UNCHANGED lo
SFill(x, f)        == WriteAll(x, f) /\ UNCHANGED lo
SCopyCtor(x, y)    == CopyCtor(x, y) /\ Cap(x, Size(y))
SCopyAssign(x, y)  == CopyAssign(x, y) /\ (IF x = y THEN UNCHANGED lo ELSE Cap(x, Size(y)))
SMoveCtor(x, y)    == MoveCtor(x, y) /\ lo' = [lo EXCEPT ![x] = lo[y], ![y] = 0]
SMoveAssign(x, y)  == MoveAssign(x, y) /\ lo' = IF x = y THEN lo ELSE [lo EXCEPT ![x] = lo[y], ![y] = 0]
SDestroy(x)        == Destroy(x) /\ Cap(x, 0)
Kept(x, n) == IF n <= lo[x] THEN Least(n, Size(x)) ELSE 0
SResizeTo(x, n, f) == /\ DOMAIN f = 1..n * W
                      /\ \A i \in 1..Kept(x, n) * W : f[i] = o[x].v[i]
                      /\ Reshape(x, <<n>>, f) /\ Cap(x, Most(lo[x], n))
\* as seen by a caller who only counts on what is promised
SResize(x, n) == SResizeTo(x, n, [i \in 1..n * W |-> IF i <= Kept(x, n) * W THEN o[x].v[i] ELSE Unk])
=============================================================================
