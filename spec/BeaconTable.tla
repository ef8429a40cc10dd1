---------------------------- MODULE BeaconTable ----------------------------
(* A file's beacon list st (records c: internal number, id: identifier, k: shift *)
(* factor) and the lookups in it; the empty set, and place 0, stand for "not listed". *)
EXTENDS Integers, Sequences
At(st, q) == {i \in 1..Len(st) : st[i].c = q}
Of(st, q) == {i \in 1..Len(st) : st[i].id = q}
ByCode(st, q) == {st[i].id : i \in At(st, q)}
ById(st, q) == {st[i].c : i \in Of(st, q)}
Place(st, q) == IF At(st, q) = {} THEN {0} ELSE At(st, q)
Shift(st, q) == {st[i].k : i \in At(st, q)}                    \* empty: refused
In(xs, q) == LET S == {i \in 1..Len(xs) : xs[i] = q} IN IF S = {} THEN {0} ELSE S
\* the generation is the identifier's last letter
Letter == [A |-> "Alcatel", B |-> "Starec_B", C |-> "Starec_C"]
Generation(x) == IF x \in DOMAIN Letter THEN Letter[x] ELSE "throw"
\* nominal frequencies: 543 (107) x 5 MHz x (3/4 + 87 k / (5 x 2^26)), above the one for k = 0, in Hz and 2^-20 Hz:
\* 543 x 5e6 x 87 / (5 x 2^26) = 703 + 991697 / 2^20 (rounded), and 107 x ... = 138 + 749637 / 2^20
FHi(q, r, k) == q * k + (r * k) \div 1048576
FLo(r, k) == (r * k) % 1048576
Frequency(band, k) == IF band = 1 THEN <<FHi(703, 991697, k), FLo(991697, k)>> ELSE <<FHi(138, 749637, k), FLo(749637, k)>>
=============================================================================
