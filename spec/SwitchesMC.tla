---------------------------- MODULE SwitchesMC ----------------------------
EXTENDS Switches, TLC, Json
CONSTANTS H, Emit
VARIABLES op, hist
vars == <<sw, swc, op, hist>>
I == Init /\ op = <<"none", 0>> /\ hist = <<>>
Step(o) == Len(hist) < H /\ op' = o /\ hist' = Append(hist, o)
Next == \/ \E i \in 0..(Dim - 1), v \in -2..3 : Set(i, v) /\ Step(<<"set", i, v>>)
        \/ \E i \in -1..(Dim - 1) : (Null(i) /\ Step(<<"null", i>>)) \/ (On(i) /\ Step(<<"on", i>>))
Spec == I /\ [][Next]_vars
Values == \A i \in 1..Dim : sw[i] \in {-1, 0, 1} /\ swc[i] \in {0, 1}
\* nothing but the named switch changes
Alone == [][op'[2] >= 0 => \A i \in 1..Dim : i # op'[2] + 1 => sw'[i] = sw[i] /\ swc'[i] = swc[i]]_vars
\* the last setting of a switch decides it
RECURSIVE LastOf(_, _)
LastOf(i, h) == IF h = <<>> THEN <<1, 1>> ELSE LET o == h[Len(h)] IN
  IF o[1] = "set" THEN (IF o[2] = i THEN <<Main(o[3]), Cross(o[3])>> ELSE LastOf(i, SubSeq(h, 1, Len(h) - 1)))
  ELSE IF o[2] \in {-1, i} THEN (IF o[1] = "on" THEN <<1, 1>> ELSE <<0, 0>>) ELSE LastOf(i, SubSeq(h, 1, Len(h) - 1))
Last == \A i \in 1..Dim : <<sw[i], swc[i]>> = LastOf(i - 1, hist)
EmitBeh == (Emit /\ Len(hist) = H) => PrintT("BEH " \o ToJson(hist))
=============================================================================
