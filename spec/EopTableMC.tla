----------------------------- MODULE EopTableMC -----------------------------
(* How such a table does it: one buffer of cap entries, the first len of them   *)
(* in use; resizing within the capacity only changes len.  Checked: single      *)
(* ownership, nothing leaked, the buffer always holds the entries in use, and   *)
(* refinement of EopTable.  Also the generator of histories.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxLen, Vals, N, Emit
Unk == -9999
Bufs == 1..(Cardinality(Slots) + 1)
VARIABLES st, buf, len, mem, used, lo, hist, done
cvars == <<st, buf, len, mem, used, lo>>
vars == <<st, buf, len, mem, used, lo, hist, done>>
Init == /\ st = [x \in Slots |-> "dead"] /\ buf = [x \in Slots |-> 0] /\ len = [x \in Slots |-> 0] /\ lo = [x \in Slots |-> 0]
        /\ mem = [b \in Bufs |-> <<>>] /\ used = {} /\ hist = <<>> /\ done = FALSE
New == CHOOSE b \in Bufs : b \notin used
H(op, a) == done' = FALSE /\ hist' = Append(hist, [op |-> op, a |-> a])
Row(n, v) == [i \in 1..n |-> v]
Cap(x) == IF buf[x] = 0 THEN 0 ELSE Len(mem[buf[x]])
\* the values of y put at the front of buffer b, which has c entries of whatever was there
Front(old, y) == [i \in DOMAIN old |-> IF i <= len[y] THEN mem[buf[y]][i] ELSE old[i]]
Make(x, n) == st[x] = "dead" /\ st' = [st EXCEPT ![x] = "live"] /\ buf' = [buf EXCEPT ![x] = New] /\ len' = [len EXCEPT ![x] = n]
              /\ mem' = [mem EXCEPT ![New] = Row(n, Unk)] /\ used' = used \cup {New} /\ lo' = [lo EXCEPT ![x] = n]
Write(x, c, v) == st[x] = "live" /\ c \in 1..len[x] /\ mem' = [mem EXCEPT ![buf[x]][c] = v] /\ UNCHANGED <<st, buf, len, used, lo>>
CopyCtor(x, y) == st[x] = "dead" /\ st[y] = "live" /\ st' = [st EXCEPT ![x] = "live"] /\ buf' = [buf EXCEPT ![x] = New]
              /\ len' = [len EXCEPT ![x] = len[y]] /\ mem' = [mem EXCEPT ![New] = SubSeq(mem[buf[y]], 1, len[y])] /\ used' = used \cup {New}
              /\ lo' = [lo EXCEPT ![x] = len[y]]
CopyAssign(x, y) == st[x] # "dead" /\ (x = y \/ st[y] = "live") /\
              IF x = y THEN UNCHANGED cvars
              ELSE /\ st' = [st EXCEPT ![x] = "live"] /\ len' = [len EXCEPT ![x] = len[y]] /\ lo' = [lo EXCEPT ![x] = len[y]]
                   /\ IF buf[x] # 0 /\ len[y] <= Cap(x) THEN mem' = [mem EXCEPT ![buf[x]] = Front(@, y)] /\ UNCHANGED <<buf, used>>
                      ELSE LET b == New IN buf' = [buf EXCEPT ![x] = b] /\ mem' = [mem EXCEPT ![b] = SubSeq(mem[buf[y]], 1, len[y])]
                                           /\ used' = (used \ {buf[x]}) \cup {b}
MoveCtor(x, y) == st[x] = "dead" /\ st[y] # "dead" /\ st' = [st EXCEPT ![x] = st[y], ![y] = "hollow"]
              /\ buf' = [buf EXCEPT ![x] = buf[y], ![y] = 0] /\ len' = [len EXCEPT ![x] = len[y], ![y] = 0]
              /\ lo' = [lo EXCEPT ![x] = lo[y], ![y] = 0] /\ UNCHANGED <<mem, used>>
MoveAssign(x, y) == st[x] # "dead" /\ st[y] # "dead" /\
              IF x = y THEN UNCHANGED cvars
              ELSE st' = [st EXCEPT ![x] = st[y], ![y] = "hollow"] /\ buf' = [buf EXCEPT ![x] = buf[y], ![y] = 0] /\ lo' = [lo EXCEPT ![x] = lo[y], ![y] = 0]
                   /\ len' = [len EXCEPT ![x] = len[y], ![y] = 0] /\ used' = used \ ({buf[x]} \ {0}) /\ UNCHANGED mem
Destroy(x) == st[x] # "dead" /\ st' = [st EXCEPT ![x] = "dead"] /\ buf' = [buf EXCEPT ![x] = 0] /\ len' = [len EXCEPT ![x] = 0]
              /\ lo' = [lo EXCEPT ![x] = 0] /\ used' = used \ ({buf[x]} \ {0}) /\ UNCHANGED mem
Resize(x, n) == st[x] # "dead" /\ st' = [st EXCEPT ![x] = "live"] /\ len' = [len EXCEPT ![x] = n]
              /\ lo' = [lo EXCEPT ![x] = IF n > @ THEN n ELSE @]
              /\ IF buf[x] # 0 /\ n <= Cap(x) THEN UNCHANGED <<buf, mem, used>>
                 ELSE LET b == New IN buf' = [buf EXCEPT ![x] = b] /\ mem' = [mem EXCEPT ![b] = Row(n, Unk)] /\ used' = (used \ {buf[x]}) \cup {b}
Step == Len(hist) < N /\ \E x \in Slots :
   \/ \E n \in 1..MaxLen : Make(x, n) /\ H("Make", <<x, n>>)
   \/ \E n \in 1..MaxLen : Resize(x, n) /\ H("Resize", <<x, n>>)
   \/ \E c \in 1..MaxLen, v \in Vals : Write(x, c, v) /\ H("Write", <<x, c, v>>)
   \/ \E y \in Slots : \/ CopyCtor(x, y) /\ H("CopyCtor", <<x, y>>)
                       \/ CopyAssign(x, y) /\ H("CopyAssign", <<x, y>>)
                       \/ MoveCtor(x, y) /\ H("MoveCtor", <<x, y>>)
                       \/ MoveAssign(x, y) /\ H("MoveAssign", <<x, y>>)
   \/ Destroy(x) /\ H("Destroy", <<x>>)
Finish == Len(hist) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, buf, len, mem, used, lo, hist>>
Spec == Init /\ [][Step \/ Finish]_vars
OneOwner == \A x, y \in Slots : x # y /\ buf[x] # 0 => buf[x] # buf[y]
NoLeak == {buf[x] : x \in Slots} \ {0} = used
LiveOwns == \A x \in Slots : (st[x] = "live") = (buf[x] # 0)
Fits == \A x \in Slots : len[x] <= Cap(x) /\ lo[x] <= Cap(x)
Abs == [x \in Slots |-> IF st[x] = "dead" THEN [st |-> "dead"] ELSE IF st[x] = "hollow" THEN [st |-> "hollow"]
                        ELSE [st |-> "live", sh |-> <<len[x]>>, v |-> SubSeq(mem[buf[x]], 1, len[x])]]
VH == INSTANCE EopTable WITH o <- Abs, W <- 1
AbsVars == <<Abs, lo>>
VNext == \E x \in Slots : \/ \E n \in 1..MaxLen : VH!SMake(x, n) \/ \E f \in [1..n -> Vals \cup {Unk}] : VH!SResizeTo(x, n, f)
                          \/ \E c \in 1..MaxLen, v \in Vals : VH!SWrite(x, c, v)
                          \/ \E y \in Slots : VH!SCopyCtor(x, y) \/ VH!SCopyAssign(x, y) \/ VH!SMoveCtor(x, y) \/ VH!SMoveAssign(x, y)
                          \/ VH!SDestroy(x)
Refines == VH!SInit /\ [][VNext]_AbsVars
EmitBeh == (Emit /\ done) => PrintT("BEH " \o ToJson(hist))
View == <<st, buf, len, lo, [b \in used |-> mem[b]], used, Len(hist), done>>
=============================================================================
