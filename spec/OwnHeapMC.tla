----------------------------- MODULE OwnHeapMC -----------------------------
(* How such a class keeps its promises: every object owns at most one buffer.   *)
(* Checked: no buffer has two owners, none is leaked, none is released twice,   *)
(* and the whole thing refines ValueHeap.  Also the generator of histories.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxLen, Vals, N, Emit
Unk == -9999
Bufs == 1..(Cardinality(Slots) + 1)                \* one may be needed while the old one is still there
VARIABLES st, buf, len, mem, used, hist, done      \* mem: buffer -> contents; used: buffers allocated
cvars == <<st, buf, len, mem, used>>
vars == <<st, buf, len, mem, used, hist, done>>
Init == /\ st = [x \in Slots |-> "dead"] /\ buf = [x \in Slots |-> 0] /\ len = [x \in Slots |-> 0]
        /\ mem = [b \in Bufs |-> <<>>] /\ used = {} /\ hist = <<>> /\ done = FALSE
New == CHOOSE b \in Bufs : b \notin used
H(op, a) == done' = FALSE /\ hist' = Append(hist, [op |-> op, a |-> a])
Row(n, v) == [i \in 1..n |-> v]
Make(x, n) == st[x] = "dead" /\ st' = [st EXCEPT ![x] = "live"] /\ buf' = [buf EXCEPT ![x] = New] /\ len' = [len EXCEPT ![x] = n]
              /\ mem' = [mem EXCEPT ![New] = Row(n, Unk)] /\ used' = used \cup {New}
Write(x, c, v) == st[x] = "live" /\ c \in 1..len[x] /\ mem' = [mem EXCEPT ![buf[x]][c] = v] /\ UNCHANGED <<st, buf, len, used>>
Fill(x, v) == st[x] = "live" /\ mem' = [mem EXCEPT ![buf[x]] = Row(len[x], v)] /\ UNCHANGED <<st, buf, len, used>>
CopyCtor(x, y) == st[x] = "dead" /\ st[y] = "live" /\ st' = [st EXCEPT ![x] = "live"] /\ buf' = [buf EXCEPT ![x] = New]
              /\ len' = [len EXCEPT ![x] = len[y]] /\ mem' = [mem EXCEPT ![New] = mem[buf[y]]] /\ used' = used \cup {New}
CopyAssign(x, y) == st[x] # "dead" /\ (x = y \/ st[y] = "live") /\
              IF x = y THEN UNCHANGED cvars
              ELSE IF buf[x] # 0 /\ len[x] = len[y] THEN mem' = [mem EXCEPT ![buf[x]] = mem[buf[y]]] /\ UNCHANGED <<st, buf, len, used>>
              ELSE LET b == New IN st' = [st EXCEPT ![x] = "live"] /\ buf' = [buf EXCEPT ![x] = b] /\ len' = [len EXCEPT ![x] = len[y]]
                   /\ mem' = [mem EXCEPT ![b] = mem[buf[y]]] /\ used' = (used \ {buf[x]}) \cup {b}
MoveCtor(x, y) == st[x] = "dead" /\ st[y] # "dead" /\ st' = [st EXCEPT ![x] = st[y], ![y] = "hollow"]
              /\ buf' = [buf EXCEPT ![x] = buf[y], ![y] = 0] /\ len' = [len EXCEPT ![x] = len[y], ![y] = 0] /\ UNCHANGED <<mem, used>>
MoveAssign(x, y) == st[x] # "dead" /\ st[y] # "dead" /\
              IF x = y THEN UNCHANGED cvars
              ELSE st' = [st EXCEPT ![x] = st[y], ![y] = "hollow"] /\ buf' = [buf EXCEPT ![x] = buf[y], ![y] = 0]
                   /\ len' = [len EXCEPT ![x] = len[y], ![y] = 0] /\ used' = used \ ({buf[x]} \ {0}) /\ UNCHANGED mem
Destroy(x) == st[x] # "dead" /\ st' = [st EXCEPT ![x] = "dead"] /\ buf' = [buf EXCEPT ![x] = 0] /\ len' = [len EXCEPT ![x] = 0]
              /\ used' = used \ ({buf[x]} \ {0}) /\ UNCHANGED mem
Step == Len(hist) < N /\ \E x \in Slots :
   \/ \E n \in 1..MaxLen : Make(x, n) /\ H("Make", <<x, n>>)
   \/ \E c \in 1..MaxLen, v \in Vals : Write(x, c, v) /\ H("Write", <<x, c, v>>)
   \/ \E v \in Vals : Fill(x, v) /\ H("Fill", <<x, v>>)
   \/ \E y \in Slots : \/ CopyCtor(x, y) /\ H("CopyCtor", <<x, y>>)
                       \/ CopyAssign(x, y) /\ H("CopyAssign", <<x, y>>)
                       \/ MoveCtor(x, y) /\ H("MoveCtor", <<x, y>>)
                       \/ MoveAssign(x, y) /\ H("MoveAssign", <<x, y>>)
   \/ Destroy(x) /\ H("Destroy", <<x>>)
Finish == Len(hist) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, buf, len, mem, used, hist>>
Spec == Init /\ [][Step \/ Finish]_vars
\* ---- ownership
Owned == {buf[x] : x \in Slots} \ {0}
OneOwner == \A x, y \in Slots : x # y /\ buf[x] # 0 => buf[x] # buf[y]
NoLeak == Owned = used
LiveOwns == \A x \in Slots : (st[x] = "live") = (buf[x] # 0)
\* ---- refinement
Abs == [x \in Slots |-> IF st[x] = "dead" THEN [st |-> "dead"] ELSE IF st[x] = "hollow" THEN [st |-> "hollow"]
                        ELSE [st |-> "live", sh |-> <<len[x]>>, v |-> mem[buf[x]]]]
VH == INSTANCE ValueHeap WITH o <- Abs
VNext == \E x \in Slots : \/ \E n \in 1..MaxLen : VH!Make(x, <<n>>, n, Unk)
                          \/ \E c \in 1..MaxLen, v \in Vals : VH!Write(x, c, v)
                          \/ \E v \in Vals : VH!Fill(x, v)
                          \/ \E y \in Slots : VH!CopyCtor(x, y) \/ VH!CopyAssign(x, y) \/ VH!MoveCtor(x, y) \/ VH!MoveAssign(x, y)
                          \/ VH!Destroy(x)
Refines == VH!VHInit /\ [][VNext]_Abs
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
View == <<st, buf, len, [b \in used |-> mem[b]], used, Len(hist), done>>
=============================================================================
