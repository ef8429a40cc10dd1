------------------------------ MODULE FlagSets ------------------------------
(* Flag containers of the library as sets of independent flags (property C09). *)
(*   es[1], es[2]  two generic enum sets (dso::EnumBitset)                     *)
(*   sp            an orbit-file flag (Sp3Flag)                                *)
(*   pk            the packed per-measurement flag: three independent bytes    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS EF, SF, PV         \* flags of the enum set, of the orbit flag; packed values
VARIABLES es, sp, pk
fvars == <<es, sp, pk>>

TypeOK == /\ es \in [1..2 -> SUBSET EF]
          /\ sp \in SUBSET SF
          /\ pk \in [1..3 -> 0..255]
FInit == es = [i \in 1..2 |-> {}] /\ sp = {} /\ pk = <<0, 0, 0>>

EsSet(o, f)    == es' = [es EXCEPT ![o] = @ \cup {f}] /\ UNCHANGED <<sp, pk>>
EsClear(o, f)  == es' = [es EXCEPT ![o] = @ \ {f}]    /\ UNCHANGED <<sp, pk>>
EsReset(o)     == es' = [es EXCEPT ![o] = {}]         /\ UNCHANGED <<sp, pk>>
EsMake(o, F)   == es' = [es EXCEPT ![o] = F]          /\ UNCHANGED <<sp, pk>>   \* construction from a list
EsCopy(o)      == es' = [es EXCEPT ![o] = es[3 - o]]  /\ UNCHANGED <<sp, pk>>
SpSet(f)       == sp' = sp \cup {f} /\ UNCHANGED <<es, pk>>
SpClear(f)     == sp' = sp \ {f}    /\ UNCHANGED <<es, pk>>
SpReset        == sp' = {}          /\ UNCHANGED <<es, pk>>
SpAssign(F)    == sp' = F           /\ UNCHANGED <<es, pk>>                     \* joined collection replaces the contents
PkSet(s, v)    == pk' = [pk EXCEPT ![s] = v] /\ UNCHANGED <<es, sp>>

Clean(S) == S = {}
Equal    == es[1] = es[2]
(* design properties *)
SetThenTest == [][\A o \in 1..2, f \in EF : (es' # es /\ f \notin ((es'[o] \ es[o]) \cup (es[o] \ es'[o]))) => ((f \in es[o]) <=> (f \in es'[o]))]_fvars
EqualIsSymmetric == Equal <=> (\A f \in EF : (f \in es[1]) <=> (f \in es[2]))
=============================================================================
