----------------------------- MODULE RinexData -----------------------------
(* DORIS RINEX data records, five observations per line.  Lines (k):              *)
(*   ep (ok, n beacons, and the epoch's own values), b (ok, id, fs: up to 5       *)
(*   fields) the first line of a beacon, c (ok, fs) a continuation line, junk     *)
EXTENDS Integers, Sequences
LinesPer(m) == (m + 4) \div 5
Blank == [s |-> "m", h |-> 0, l |-> 0, a |-> " ", b |-> " "]
Field(L, i) == IF i <= Len(L.fs) THEN L.fs[i] ELSE Blank                 \* trailing blank fields may be omitted
\* reading the block that starts at line p of D, m observation types
RECURSIVE Beacons(_, _, _, _, _)
Beacons(D, m, n, p, acc) ==
  IF n = 0 THEN [res |-> "blk", pos |-> p, obs |-> acc]
  ELSE LET q == p + LinesPer(m) - 1
           good == /\ q <= Len(D) /\ D[p].k = "b" /\ D[p].ok
                   /\ \A i \in (p + 1)..q : D[i].k = "c" /\ D[i].ok
       IN IF ~good THEN [res |-> "err", pos |-> p, obs |-> <<>>]
          ELSE Beacons(D, m, n - 1, q + 1, Append(acc, [id |-> D[p].id, vs |-> [j \in 1..m |-> Field(D[p + (j - 1) \div 5], ((j - 1) % 5) + 1)]]))
NextBlock(D, m, p) ==
  IF p > Len(D) THEN [res |-> "eof", pos |-> p, obs |-> <<>>]
  ELSE IF D[p].k # "ep" \/ ~D[p].ok THEN [res |-> "err", pos |-> p, obs |-> <<>>]
  ELSE Beacons(D, m, D[p].n, p + 1, <<>>)
=============================================================================
