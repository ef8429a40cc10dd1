---------------------------- MODULE RinexDataMC ----------------------------
EXTENDS RinexData, TLC, Json
CONSTANTS N, Ms, Emit
VARIABLES D, m, ph, pos, got, spans, end
vars == <<D, m, ph, pos, got, spans, end>>
\* line-by-line machine: what is left of the current block
VARIABLES bn, ln, id, acc
all == <<D, m, ph, pos, got, spans, end, bn, ln, id, acc>>
Lines == [k : {"ep"}, ok : BOOLEAN, n : 0..2] \cup [k : {"b"}, ok : BOOLEAN, id : {"D01"}, fs : {<<>>}] \cup [k : {"c"}, ok : BOOLEAN, fs : {<<>>}] \cup {[k |-> "junk"]}
V(i) == [s |-> "+", h |-> 0, l |-> i, a |-> "1", b |-> "2"]
Put(L) == IF L.k \in {"b", "c"} THEN [L EXCEPT !.fs = [i \in 1..5 |-> V(10 * (Len(D) + 1) + i)]] ELSE L
Init == D = <<>> /\ m \in Ms /\ ph = "make" /\ pos = 1 /\ got = <<>> /\ spans = <<>> /\ end = "" /\ bn = 0 /\ ln = 0 /\ id = "" /\ acc = <<>>
Make == ph = "make" /\ Len(D) < N /\ UNCHANGED <<m, ph, pos, got, spans, end, bn, ln, id, acc>> /\ \E L \in Lines : D' = Append(D, Put(L))
Go == ph = "make" /\ ph' = "head" /\ UNCHANGED <<D, m, pos, got, spans, end, bn, ln, id, acc>>
\* one line consumed per step
Stop(e) == ph' = "end" /\ end' = e /\ UNCHANGED <<D, m, pos, got, spans, bn, ln, id, acc>>
Epoch == ph = "head" /\ (IF pos > Len(D) THEN Stop("eof")
        ELSE IF D[pos].k # "ep" \/ ~D[pos].ok THEN Stop("err")
        ELSE /\ bn' = D[pos].n /\ ln' = LinesPer(m) /\ pos' = pos + 1 /\ acc' = <<>> /\ id' = "" /\ spans' = Append(spans, <<pos, pos>>)
             /\ got' = Append(got, <<>>) /\ ph' = (IF D[pos].n = 0 THEN "head" ELSE "body") /\ UNCHANGED <<D, m, end>>)
Body == ph = "body" /\ (IF pos > Len(D) THEN Stop("err")
        ELSE LET L == D[pos] first == ln = LinesPer(m) IN
             IF L.k # (IF first THEN "b" ELSE "c") \/ ~L.ok THEN Stop("err")
             ELSE LET a == acc \o SubSeq(L.fs, 1, IF ln = 1 THEN m - Len(acc) ELSE 5) nid == (IF first THEN L.id ELSE id) k == Len(got) IN
                  /\ pos' = pos + 1 /\ id' = nid /\ spans' = [spans EXCEPT ![k][2] = pos]
                  /\ (IF ln = 1 THEN /\ got' = [got EXCEPT ![k] = Append(@, [id |-> nid, vs |-> a])] /\ acc' = <<>> /\ ln' = LinesPer(m) /\ bn' = bn - 1
                                     /\ ph' = (IF bn = 1 THEN "head" ELSE "body")
                      ELSE acc' = a /\ ln' = ln - 1 /\ UNCHANGED <<bn, ph, got>>)
                  /\ UNCHANGED <<D, m, end>>)
Spec == Init /\ [][Make \/ Go \/ Epoch \/ Body]_all /\ WF_all(Epoch \/ Body)
\* ---- whole blocks, read one after the other, are what the machine delivers
RECURSIVE Blocks(_, _)
Blocks(p, out) == LET b == NextBlock(D, m, p) IN IF b.res = "blk" THEN Blocks(b.pos, Append(out, b.obs)) ELSE [end |-> b.res, out |-> out]
Delivered == IF end = "err" /\ ph = "end" /\ bn > 0 THEN SubSeq(got, 1, Len(got) - 1) ELSE got
Agree == ph = "end" => LET B == Blocks(1, <<>>) IN B.end = end /\ B.out = Delivered
\* every line belongs to exactly one block, in order, up to the end or the error
Tiled == ph = "end" => /\ (spans # <<>> => spans[1][1] = 1) /\ \A i \in 1..(Len(spans) - 1) : spans[i + 1][1] = spans[i][2] + 1
                       /\ (end = "eof" => (IF spans = <<>> THEN D = <<>> ELSE spans[Len(spans)][2] = Len(D)))
\* a value comes from its own block, beacon and column
Own == ph = "end" => \A i \in 1..Len(Delivered) : \A j \in 1..Len(Delivered[i]) : \A c \in 1..m :
          Delivered[i][j].vs[c].l = 10 * (spans[i][1] + (j - 1) * LinesPer(m) + 1 + (c - 1) \div 5) + ((c - 1) % 5) + 1
Ends == (ph = "head") ~> (ph = "end")
EmitBeh == (Emit /\ ph = "head" /\ pos = 1) => PrintT("BEH " \o ToJson([D |-> D, m |-> m]))
=============================================================================
