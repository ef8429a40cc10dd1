------------------------------ MODULE MsisMC ------------------------------
\* How one call works through an instance's workspace. Every part a call reads must have been written by that same call: then the result is a function of its inputs.
EXTENDS Msis, FiniteSets, TLC, Json
CONSTANTS Inst, H, Emit, Skipped
VARIABLES ws, call, stage, stale, hist
vars == <<ws, call, stage, stale, hist>>
\* zone: 1 above 300 km, 2 above the joining altitude, 3 above 72.5, 4 above 62.5, 5 above 32.5, 6 below
Parts == {"grav", "leg", "trig", "apdf", "apt", "tn1", "mixed", "tn2", "tn3", "d"}
Calls == [inst : Inst, zone : 1..6, mass : {48, 0, 28, 4}, array : BOOLEAN]
Stages == <<"gravity", "zero", "tinf", "grad", "tlb", "nodes1", "dens", "nodes2", "nodes3", "low", "done">>
\* which parts a stage reads / writes for a call c
Mag(c) == IF c.array THEN "apt" ELSE "apdf"
Globe(c) == {"leg", "trig", Mag(c)}
R(c, s) == CASE s = "nodes1" -> IF c.zone = 1 THEN {} ELSE {"leg", "trig", Mag(c)}
             [] s = "dens" -> {"grav", "tn1"}
             [] s = "nodes2" -> IF c.zone >= 4 THEN {"tn1", "leg", "trig", Mag(c)} ELSE {}
             [] s = "nodes3" -> IF c.zone = 6 THEN {"tn2", "leg", "trig", Mag(c)} ELSE {}
             [] s = "low" -> IF c.zone < 4 THEN {"d"} ELSE {"d", "grav", "tn2"} \cup (IF c.zone = 6 THEN {"tn3"} ELSE {}) \cup (IF c.mass # 0 THEN {"mixed"} ELSE {})
             [] OTHER -> {}
W(c, s) == (CASE s = "gravity" -> {"grav"}
             [] s = "zero" -> {"d"}
             [] s = "tinf" -> IF c.zone <= 2 THEN Globe(c) ELSE {}
             [] s = "grad" -> IF c.zone <= 3 THEN Globe(c) ELSE {}
             [] s = "tlb" -> Globe(c)
             [] s = "nodes1" -> {"tn1"}
             [] s = "dens" -> IF c.mass # 0 /\ c.zone >= 3 THEN {"mixed", "d"} ELSE {"d"}
             [] s = "nodes2" -> IF c.zone >= 4 THEN {"tn2"} ELSE {}
             [] s = "nodes3" -> IF c.zone = 6 THEN {"tn3"} ELSE {}
             [] OTHER -> {}) \ Skipped
N == Len(hist)
Init == ws = [i \in Inst |-> [p \in Parts |-> 0]] /\ call = [inst |-> 0] /\ stage = Len(Stages) /\ stale = {} /\ hist = <<>>
Begin(c) == stage = Len(Stages) /\ N < H /\ call' = c /\ stage' = 1 /\ stale' = {} /\ hist' = Append(hist, <<c.inst, c.zone, c.mass, IF c.array THEN 1 ELSE 0>>) /\ UNCHANGED ws
Work == /\ stage < Len(Stages) /\ stage' = stage + 1
        /\ stale' = stale \cup {p \in R(call, Stages[stage]) : ws[call.inst][p] # N}
        /\ ws' = [ws EXCEPT ![call.inst] = [p \in Parts |-> IF p \in W(call, Stages[stage]) THEN N ELSE @[p]]]
        /\ UNCHANGED <<call, hist>>
Next == (\E c \in Calls : Begin(c)) \/ Work
Spec == Init /\ [][Next]_vars
Fresh == stale = {}
EmitBeh == (Emit /\ N = H /\ stage = Len(Stages)) => PrintT("BEH " \o ToJson(hist))
=============================================================================
