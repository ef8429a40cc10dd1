---------------------------- MODULE AntennaPcvMC ----------------------------
(* Bracket search over the table, against the direct formula.                   *)
EXTENDS AntennaPcv, TLC, Json
CONSTANTS Step, Emit
VARIABLES a, f, z, i, res
vars == <<a, f, z, i, res>>
Types == {"Alcatel", "Starec_B", "Starec_C"}
Zs == {k * Step - 2 * Step : k \in 0..(Last \div Step + 4)} \cup {k * 5000 + d : k \in 0..18, d \in {0 - 1, 0, 1}}
Init == a \in Types /\ f \in {1, 2} /\ z \in Zs /\ i = 0 /\ res = <<>>
\* walk up until the upper tabulated angle is not below z
Walk == /\ res = <<>> /\ UNCHANGED <<a, f, z>>
        /\ IF ~Inside(z) THEN res' = <<"out", 0>> /\ UNCHANGED i
           ELSE IF z > 5000 * (i + 1) THEN i' = i + 1 /\ UNCHANGED res
           ELSE LET T == Table(a, f) w == z - 5000 * i IN res' = <<"in", (T[i + 1] * (5000 - w) + T[i + 2] * w) \div 50>> /\ UNCHANGED i
Spec == Init /\ [][Walk]_vars /\ WF_vars(Walk)
Agree == res # <<>> => IF Inside(z) THEN res[1] = "in" /\ res[2] - Pcv(Table(a, f), z) \in -1..1 ELSE res[1] = "out"
Nodes == (res # <<>> /\ Inside(z) /\ z % 5000 = 0) => res[2] = Table(a, f)[z \div 5000 + 1] * 100 /\ Pcv(Table(a, f), z) = res[2]
Between == (res # <<>> /\ Inside(z)) => LET T == Table(a, f) lo == T[i + 1] * 100 hi == T[i + 2] * 100 IN (lo <= res[2] /\ res[2] <= hi) \/ (hi <= res[2] /\ res[2] <= lo)
Ends == <>(res # <<>>)
EmitBeh == (Emit /\ res # <<>>) => PrintT("BEH " \o ToJson([a |-> a, f |-> f, z |-> z]))
=============================================================================
